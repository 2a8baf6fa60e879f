"""Source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
S = "src/frequenz/channels/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [{"name": n, "meaning": m, "where": S + w} for n, m, w in state],
            "mechanism": [{"name": n, "where": S + w} for n, w in mech],
            "observe_at": list(observe), "hook_needed": None,
        },
    })


prop("C01", "Anycast delivers every accepted message exactly once, in order",
     "Every message whose send completed on an anycast channel is handed to exactly one receive call of exactly one receiver, as the very object that was sent; it is never dropped, duplicated, replaced or overtaken by a message that was accepted later. A send that does not complete (error or cancellation) leaves no message behind. Receiving on an open channel either yields a message or waits; it never fails.",
     ["schedules", "inputs", "histories"],
     "any number of senders/receivers, any interleaving of their suspension points, any buffer limit >= 1, any message objects, cancellation at any suspension point",
     "The tests run one sender loop with five receivers on one deterministic schedule and compare a sum; no interleaving of a blocked sender, a cancelled receiver and a second receiver is ever exercised.",
     ["_anycast.py"],
     [("sender appends to the shared buffer", "_anycast.py:_Sender.send"), ("receiver takes from the opposite end into its slot", "_anycast.py:_Receiver.ready"), ("slot handed out and emptied", "_anycast.py:_Receiver.consume")],
     [("_deque", "messages accepted and not yet taken by a receiver", "_anycast.py:Anycast"), ("_next", "message taken by this receiver and not yet consumed", "_anycast.py:_Receiver")],
     ["Receiver.receive()", "Sender.send()"])

prop("C02", "Anycast applies backpressure: bounded buffer, nothing discarded",
     "An anycast channel never buffers more than its configured limit and never makes room by discarding: a send that finds the buffer full suspends, inserts only at a moment when there really is free space, and a send that finds space never suspends. The limit reported by the channel is the one it was created with.",
     ["schedules", "inputs"],
     "any limit >= 1, any number of competing senders, any interleaving between a sender being woken and it inserting its message",
     "The one backpressure test uses a single sender; another sender stealing the slot between wake-up and insertion (which a bounded deque would silently turn into a dropped message) is never scheduled.",
     ["_anycast.py"],
     [("re-check of the full condition after every wake-up", "_anycast.py:_Sender.send"), ("bounded deque", "_anycast.py:Anycast.__init__")],
     [("_deque.maxlen", "the limit", "_anycast.py:Anycast")], ["Sender.send()", "Anycast.limit"])

prop("C03", "No lost wake-up: no task waits for a channel condition that already holds",
     "On anycast and broadcast channels a receiver only goes to sleep when it has no message and the channel is open, and a sender only when the buffer is full and the channel is open; whenever a message is made available, space is freed, or the channel is closed, every task that can proceed because of it is woken before the acting task suspends or returns. No internal lock is held across a suspension other than the condition wait itself.",
     ["schedules", "histories"],
     "every interleaving of senders, receivers and close() at their suspension points",
     "A lost wake-up needs a task to be between its check and its wait, or two waiters on one condition; tests wake at most one waiter in a fixed order.",
     ["_anycast.py", "_broadcast.py"],
     [("check-then-wait without an intervening suspension", "_anycast.py:_Receiver.ready"), ("notify after append", "_anycast.py:_Sender.send"), ("notify_all on close", "_anycast.py:Anycast.close"), ("notify_all after broadcast", "_broadcast.py:_Sender.send"), ("notify_all on close", "_broadcast.py:Broadcast.close")],
     [("_recv_cv", "receivers waiting for messages", "_anycast.py:Anycast"), ("_send_cv", "senders waiting for space", "_anycast.py:Anycast")], ["asyncio.Condition wait/notify"])

prop("C04", "A closed channel accepts nothing: sends fail cleanly",
     "Once close() was called on a channel, every send on it, including one that was already blocked waiting for space, raises SenderError carrying that sender and caused by a ChannelClosedError carrying that channel, and has no effect on any receiver. A send on an open channel never raises.",
     ["schedules", "histories"],
     "every order of close() relative to every suspension point of every send, on both channel kinds",
     "Tests only close an idle channel before a fresh send; closing while a sender is blocked is not tested (and was broken: the blocked sender inserted its message after the receivers had been told the channel was finished).",
     ["_anycast.py", "_broadcast.py", "_exceptions.py", "_sender.py"],
     [("closed check before any effect", "_anycast.py:_Sender.send"), ("closed check before any effect", "_broadcast.py:_Sender.send")],
     [("_closed", "channel closed", "_anycast.py:Anycast"), ("_closed", "channel closed", "_broadcast.py:Broadcast")], ["Sender.send()"])

prop("C05", "Closing drains: pending messages first, then a permanent stop",
     "After close(), receivers still get every message that was pending for them, and only when none is left do they report the stop, as ReceiverStoppedError carrying that receiver and caused by ChannelClosedError carrying that channel; a channel never reopens and is_closed is true from the call to close() on. A receiver of an open channel never reports a stop.",
     ["schedules", "histories"],
     "any number of pending messages, any order of close/ready/consume, any number of receive attempts after the stop",
     "Tests drain at most one message after close and call receive once after the stop.",
     ["_anycast.py", "_broadcast.py", "_receiver.py"],
     [("buffer is checked before the closed flag", "_anycast.py:_Receiver.ready"), ("consume raises only if nothing is pending", "_anycast.py:_Receiver.consume"), ("buffer checked before closed", "_broadcast.py:_Receiver.ready"), ("consume", "_broadcast.py:_Receiver.consume"), ("close", "_anycast.py:Anycast.close"), ("close", "_broadcast.py:Broadcast.close")],
     [], ["Receiver.ready()", "Receiver.consume()", "is_closed"])

prop("C06", "Broadcast delivers every message to every live receiver, in order",
     "A message sent on a broadcast channel is queued, as the very object sent, exactly once to every receiver that was created before the send and is still referenced, whatever the other receivers are doing and whether or not some of them have been dropped; each receiver gets the messages it did not overflow in the order the sends took effect. A send whose message was queued to some receiver was queued to all of them. Receiving on an open channel either yields a message or waits; it never fails.",
     ["schedules", "inputs", "histories"],
     "any number of receivers, any subset of them garbage-collected in any order between sends, any messages, cancellation of the send at any suspension point",
     "Tests use at most five receivers, drop at most one, and check totals.",
     ["_broadcast.py"],
     [("loop over all registered receivers", "_broadcast.py:_Sender.send"), ("registration", "_broadcast.py:Broadcast.new_receiver"), ("FIFO queue", "_broadcast.py:_Receiver.consume")],
     [("_receivers", "registered receivers", "_broadcast.py:Broadcast"), ("_q", "messages pending for one receiver", "_broadcast.py:_Receiver")], ["Receiver.receive()"])

prop("C07", "Broadcast overflow drops only the oldest message of the slow receiver",
     "A broadcast send never waits for receivers: when a receiver already holds its configured limit of messages, exactly its single oldest message is discarded, with a warning logged, and the new one is appended; when it holds fewer, nothing is discarded. Each receiver's capacity is the limit it was created with (default 50) and is independent of all others.",
     ["inputs", "histories"],
     "any limit >= 1, any fill level of any receiver at any send",
     "One overflow test compares sums for two sizes; dropping the newest, dropping one too early, or affecting another receiver at other fill levels is not distinguished for all histories.",
     ["_broadcast.py"],
     [("drop-oldest on full", "_broadcast.py:_Receiver.enqueue"), ("per-receiver bounded deque", "_broadcast.py:_Receiver.__init__")],
     [("_q.maxlen", "capacity", "_broadcast.py:_Receiver")], ["Sender.send()", "len(receiver)"])

prop("C08", "resend_latest gives new receivers exactly the latest message",
     "On a broadcast channel with resend_latest enabled a newly created receiver starts with exactly one pending message, the last one accepted by the channel, whatever its value (including None or other falsy objects); it starts empty if nothing was ever sent or the channel was closed, and always starts empty when resend_latest is disabled.",
     ["inputs", "histories"],
     "any message values, any sequence of sends, closes and receiver creations",
     "Tests resend only a truthy int on an open channel (a None message was in fact not resent).",
     ["_broadcast.py"],
     [("remember latest", "_broadcast.py:_Sender.send"), ("resend", "_broadcast.py:Broadcast.new_receiver"), ("forget on close", "_broadcast.py:Broadcast.close")],
     [("_latest", "last accepted message", "_broadcast.py:Broadcast")], ["Broadcast.new_receiver()"])

prop("C09", "Channels do not keep receivers alive; derived receivers do",
     "A broadcast channel holds no strong reference to its receivers, so a receiver the user dropped stops accumulating messages, and its registration is removed by the next send; conversely a receiver obtained from map(), merge() or select() keeps its source receivers referenced for as long as it is itself in use, so a source is not lost because the user only kept the derived one.",
     ["histories", "programs"],
     "any creation/drop history of receivers, any nesting of map/merge/select over receivers",
     "One test drops one receiver and looks at a private dict; strong references added elsewhere (sender, closure, cache) would leak silently.",
     ["_broadcast.py", "_receiver.py", "_merge.py", "_select.py"],
     [("weakref registry", "_broadcast.py:Broadcast.new_receiver"), ("pruning", "_broadcast.py:_Sender.send"), ("strong reference to the source", "_receiver.py:_Mapper.__init__"), ("strong reference to the sources", "_merge.py:Merger.__init__")],
     [("_receivers", "weak registry", "_broadcast.py:Broadcast")], ["garbage collection of receivers"])

prop("C10", "ready()/consume() contract of every receiver",
     "For every receiver type of the library: after ready() returned True the next consume() does not report a stop, after it returned False the next consume() raises ReceiverStoppedError; consume() after a completed ready() never fails the must-be-preceded-by-ready assertion, even if the receiver's or channel's other public methods were called in between. Calling ready() again without consuming returns immediately, takes nothing more and does not change what consume() returns; consume() yields each message once; ready() does not itself raise the stream's errors.",
     ["schedules", "histories", "inputs"],
     "every reachable state of every receiver type and every sequence of ready/consume and other public calls",
     "Tests mostly use receive(); repeated ready(), stop between ready and consume, or set-then-stop states are not covered.",
     ["_receiver.py", "_anycast.py", "_broadcast.py", "_merge.py", "event.py", "timer.py", "file_watcher.py"],
     [("ready/consume", "_anycast.py:_Receiver"), ("ready/consume", "_broadcast.py:_Receiver"), ("ready/consume", "_merge.py:Merger"), ("ready/consume", "event.py:Event"), ("ready/consume", "timer.py:Timer"), ("ready/consume", "file_watcher.py:FileWatcher"), ("ready/consume", "_receiver.py:_Mapper")],
     [], ["Receiver.ready()", "Receiver.consume()"])

prop("C11", "receive() and async iteration agree on messages, stops and errors",
     "For any receiver, receive() and one step of async iteration wait for readiness once, take exactly one message and return that very message; a stop ends the iteration normally and makes receive() raise ReceiverStoppedError carrying the receiver it was called on, with the original cause preserved in the exception chain; any other error raised while receiving reaches the caller unchanged. Async iterating a receiver yields from that same receiver.",
     ["inputs", "programs", "fault_sequences"],
     "any receiver implementation, including user-defined and nested mapped/merged ones, and any error it raises",
     "Tests check the stop path of two channel receivers only; error pass-through and nested receivers are not tested.",
     ["_receiver.py"],
     [("__anext__", "_receiver.py:Receiver.__anext__"), ("receive", "_receiver.py:Receiver.receive")],
     [], ["Receiver.receive()", "async for"])

prop("C12", "map() applies the function exactly once per message and hides nothing",
     "A receiver returned by map() becomes ready and stops exactly when its source does, and each consume takes exactly one message of the source, calls the mapping function exactly once with that very message and returns the function's result unchanged, whatever it is; errors from the source or the function reach the caller unchanged. Creating or waiting on the mapped receiver neither consumes from the source nor calls the function.",
     ["inputs", "programs"],
     "any source receiver, any mapping function (side-effecting, raising, returning falsy values), any nesting",
     "Tests map two ints with a pure lambda.",
     ["_receiver.py"],
     [("_Mapper", "_receiver.py:_Mapper.consume"), ("_Mapper.ready", "_receiver.py:_Mapper.ready")],
     [], ["Receiver.map()"])

prop("C13", "Cancelling a pending receive never loses a message or kills the receiver",
     "If the task waiting in ready(), receive() or async iteration of any library receiver is cancelled at any suspension point, every message the receiver had already taken from its source remains retrievable by a later receive, and the receiver itself continues to work as if the cancelled call had not been made.",
     ["schedules", "fault_sequences"],
     "cancellation delivered at every suspension point of every receiver's waiting methods",
     "No test cancels a receive and then checks that nothing was lost; timeouts and leaving a select loop cancel exactly there.",
     ["_anycast.py", "_broadcast.py", "_merge.py", "event.py", "timer.py", "file_watcher.py", "_receiver.py"],
     [("message stored before any further suspension", "_anycast.py:_Receiver.ready"), ("no suspension between ready and consume", "_receiver.py:Receiver.__anext__"), ("pending set untouched by a cancelled wait", "_merge.py:Merger.ready")],
     [], ["Task.cancel()", "asyncio.timeout"])

prop("C14", "Cancellation of a task blocked in the library is never swallowed",
     "A CancelledError delivered to a task that is suspended inside any library coroutine propagates out of that coroutine after any cleanup it awaits (unless that cleanup itself fails, in which case the cancellation stays attached as the context of the error, see C20); no library code converts it to a normal return, another exception or another wait, and no library code raises CancelledError on its own account into a task nobody cancelled.",
     ["schedules", "fault_sequences"],
     "every suspension point of every coroutine and async generator in the package",
     "Tests never cancel a task inside send/ready/select; a broad except around an await would pass them all.",
     ["_anycast.py", "_broadcast.py", "_merge.py", "_select.py", "event.py", "timer.py", "file_watcher.py", "_receiver.py"],
     [("no broad except around a suspension", "_select.py:Selected.__init__"), ("no CancelledError leaked from internal tasks", "_merge.py:Merger.ready")],
     [], ["Task.cancel()"])

prop("C15", "merge() delivers every message of every source exactly once, in order",
     "A merged receiver hands out every message received from each of its sources exactly once, as the same object, preserving each source's order, as soon as any source has one; after a source delivered a message (or an error) it is immediately waited for again, exactly one outstanding receive per source. A source that stops or raises an error never causes a message of another source to be lost, delayed until another event, or duplicated; the error is raised by the consume that takes its place in the stream.",
     ["schedules", "inputs", "fault_sequences"],
     "any number of sources, any subset of them completing, stopping or failing in the same loop iteration, in any order",
     "One test merges two channels with a fixed pattern and no errors (an error in one source used to drop messages of the others and end the stream).",
     ["_merge.py"],
     [("collect all done tasks and re-arm", "_merge.py:Merger.ready"), ("results queue", "_merge.py:Merger.consume")],
     [("_pending", "outstanding receives", "_merge.py:Merger"), ("_results", "received, not yet consumed", "_merge.py:Merger")], ["Merger.receive()"])

prop("C16", "merge() ends exactly when all sources stopped or stop() was called",
     "A merged receiver reports a stop only when every source has stopped, or stop() was called, and all collected messages were handed out, and then it does so permanently; merge() without sources is rejected with ValueError. stop() cancels and awaits every outstanding internal task, a consumer waiting at that moment sees the ordinary stop, no internal task is started after it, and dropping the merged receiver cancels its outstanding tasks.",
     ["schedules", "histories"],
     "any order of sources stopping, stop() at any suspension point of a concurrent receive",
     "stop() is not tested at all (calling it during a pending receive used to cancel the consumer's task).",
     ["_merge.py"],
     [("stop", "_merge.py:Merger.stop"), ("end condition", "_merge.py:Merger.ready"), ("finalizer", "_merge.py:Merger.__del__"), ("argument check", "_merge.py:merge")],
     [("_pending", "outstanding receives", "_merge.py:Merger")], ["Merger.stop()", "Merger.receive()"])

prop("C17", "select() reports each ready receiver exactly once and re-arms it",
     "select() waits for every receiver it was given from the start, and each time one becomes ready it yields exactly one Selected attributed to that very receiver, consuming it exactly once; all receivers that became ready at the same time are reported, none is skipped, and after the loop body handled it, an active receiver is waited for again, with never more than one outstanding wait per receiver.",
     ["schedules", "inputs", "histories"],
     "any set of receivers, any subset ready simultaneously, any iteration order",
     "Tests use three Event receivers and fixed sequences.",
     ["_select.py"],
     [("wait/dispatch loop", "_select.py:select"), ("task-to-receiver association", "_select.py:select")],
     [("pending", "outstanding waits", "_select.py:select")], ["async for ... in select()"])

prop("C18", "select() reports a stopped receiver once and ends when all stopped",
     "A receiver that stopped is reported through one Selected with was_stopped true (and exception set), is not waited for again, and does not disturb the other receivers; the select iteration ends normally if and only if every receiver has stopped. A message that is ready is never hidden by the receiver having stopped meanwhile.",
     ["schedules", "histories"],
     "any order and simultaneity of stops and messages over any set of library receivers",
     "Tests stop Event receivers one at a time when nothing is pending (a set-then-stopped event was never reported as stopped and a stopped file watcher was reported twice).",
     ["_select.py", "event.py", "file_watcher.py"],
     [("inactive receivers are not re-armed", "_select.py:select"), ("loop until nothing pending", "_select.py:select")],
     [], ["Selected.was_stopped"])

prop("C19", "select() enforces exhaustive handling",
     "If the loop body of a select iteration never established, by selected_from() with the right receiver, where the Selected came from, the next step of the iteration raises UnhandledSelectedError carrying that Selected; if it did, no such error is raised. selected_from() returns true exactly for the receiver the Selected came from and has no other effect when it does not match.",
     ["programs", "histories"],
     "any loop body, any receiver asked about, any number of queries",
     "One test misses one receiver.",
     ["_select.py"],
     [("handled flag", "_select.py:selected_from"), ("check after the body", "_select.py:select")],
     [("_handled", "selected_from matched", "_select.py:Selected")], ["UnhandledSelectedError"])

prop("C20", "select() leaves no task behind on any exit",
     "However a select iteration ends (exhaustion, break and close, exception in or after the body, unhandled selection, failing receiver, cancellation of the consumer), every outstanding internal wait is cancelled and awaited before the generator finishes, and only those; an exception raised by a receiver's ready() during normal operation surfaces as SelectError caused by it, and one raised during cleanup is reported as an exception group, never dropped.",
     ["schedules", "fault_sequences"],
     "every exit edge of the generator, any set of outstanding waits, any receivers failing while waiting or while being cancelled",
     "Tests cover break on two receivers.",
     ["_select.py"],
     [("finally block", "_select.py:select"), ("cancel and await", "_select.py:_stop_pending_tasks"), ("SelectError conversion", "_select.py:select")],
     [("pending", "outstanding waits", "_select.py:select")], ["asyncio.all_tasks()", "SelectError"])

prop("C21", "A Selected faithfully holds either the message or the exception",
     "Creating a Selected consumes its receiver exactly once and never raises the receiver's (ordinary) exceptions: afterwards message returns that very message, whatever its value, with exception None, or raises that very exception with exception set to it, the same on every access; was_stopped is true exactly when the exception is a ReceiverStoppedError.",
     ["inputs"],
     "any message value including None and falsy ones, any Exception raised by consume, any number of accesses",
     "Tests use one message and two exceptions.",
     ["_select.py"],
     [("consume and store", "_select.py:Selected.__init__"), ("message", "_select.py:Selected.message")],
     [], ["Selected.message", "Selected.exception", "Selected.was_stopped"])

prop("C22", "Event latches: a set is received once, a stop is never missed",
     "An Event that is set before or while being waited for makes the wait finish, is_set stays true until consumed, and any number of sets before a consume are received as one; after a consume the next wait blocks until the next set. stop() wakes a waiting receiver and is permanent; a set that is pending when it is stopped is still received first, after which every receive reports the stop.",
     ["schedules", "histories"],
     "any sequence of set/stop/ready/consume, with set/stop at any point relative to a pending wait",
     "One linear test; set and stop together, or stop during a wait, are not covered.",
     ["event.py"],
     [("set/stop", "event.py:Event.set"), ("ready", "event.py:Event.ready"), ("consume", "event.py:Event.consume")],
     [("_is_set", "pending event", "event.py:Event"), ("_is_stopped", "stopped", "event.py:Event"), ("_event", "wake-up flag", "event.py:Event")], ["Event.is_set", "Event.is_stopped", "Event.ready()"])

prop("C23", "A timer never ticks early and reports its exact drift",
     "A running timer becomes ready only once the loop clock has reached the scheduled tick time in force at that moment (also if it was reset while being waited for), and the message is exactly the clock reading at the trigger minus that scheduled time, hence never negative; the wait is never longer than needed to reach the schedule it read, and the policy is asked exactly once per tick with the timer's own interval, that scheduled time and that clock reading, its answer becoming the next scheduled time.",
     ["schedules", "inputs", "histories"],
     "any interval >= 1 us, any policy, any delays of the loop, resets and stops at any point of the wait",
     "Tests use a simulated loop with round intervals and no concurrent reset.",
     ["timer.py"],
     [("wait loop re-reading the schedule", "timer.py:Timer.ready"), ("drift and policy call", "timer.py:Timer.ready"), ("drift hand-out", "timer.py:Timer.consume")],
     [("_next_tick_time", "scheduled tick", "timer.py:Timer"), ("_current_drift", "pending tick", "timer.py:Timer")], ["Timer.receive()"])

prop("C24", "Timer lifecycle: start, stop and reset behave as documented",
     "reset() (re)starts the timer so that the next tick is scheduled at now + start_delay + interval with no tick pending; auto_start does the same at construction, and an unstarted timer is started by the first wait. stop() makes every later wait without a pending tick return immediately and report ReceiverStoppedError until reset() is called, is_running telling which; a stop during a wait prevents that tick, a tick already pending at the stop is still delivered. Invalid interval, negative delay, or delay without auto_start are rejected with ValueError.",
     ["histories", "inputs", "schedules"],
     "any sequence of construction options, reset, stop, ready and consume, with stop/reset at any suspension point",
     "stop() is not tested; resets are tested between ticks only.",
     ["timer.py"],
     [("reset", "timer.py:Timer.reset"), ("stop", "timer.py:Timer.stop"), ("auto start", "timer.py:Timer.__init__"), ("stop checks", "timer.py:Timer.ready")],
     [("_stopped", "stop requested or not started", "timer.py:Timer")], ["Timer.is_running", "Timer.receive()"])

prop("C25", "Missed-tick policies compute the documented next tick",
     "For all integers now >= scheduled and interval >= 1: TriggerAllMissed returns scheduled + interval; SkipMissedAndResync returns the unique time congruent to scheduled modulo interval that lies in (now, now + interval]; SkipMissedAndDrift returns now + interval if the delay exceeds the tolerance and scheduled + interval otherwise, the tolerance being the one given in microseconds and never negative (ValueError). Hence no policy schedules a tick twice or skips one it must deliver.",
     ["inputs"],
     "all integer triples (now, scheduled, interval) and tolerances",
     "Property tests sample bounded integers; the arithmetic must hold for all.",
     ["timer.py"],
     [("TriggerAllMissed", "timer.py:TriggerAllMissed.calculate_next_tick_time"), ("SkipMissedAndResync", "timer.py:SkipMissedAndResync.calculate_next_tick_time"), ("SkipMissedAndDrift", "timer.py:SkipMissedAndDrift.calculate_next_tick_time")],
     [], ["MissedTickPolicy.calculate_next_tick_time()"])

prop("C26", "FileWatcher reports each watched change exactly once, correctly typed",
     "Every change delivered by the underlying watcher whose type is among the requested event types is handed out exactly once as an Event with the matching type (added/modified/deleted become CREATE/MODIFY/DELETE) and its own path; changes not yet consumed are never overwritten by a later batch, changes of other types are never reported, and all given paths are watched.",
     ["inputs", "histories"],
     "any batches of changes, any subset of event types, any paths, any interleaving of ready and consume",
     "The unit test feeds single-element batches; multi-change batches and repeated ready() are not covered.",
     ["file_watcher.py"],
     [("batch buffering", "file_watcher.py:FileWatcher.ready"), ("conversion", "file_watcher.py:FileWatcher.consume"), ("filter", "file_watcher.py:FileWatcher._filter_events"), ("mapping", "file_watcher.py:EventType")],
     [("_changes", "unconsumed changes", "file_watcher.py:FileWatcher")], ["FileWatcher.receive()"])

prop("C27", "FileWatcher stop is reported once, permanently, and releases the watch",
     "When the underlying watch ends, the watcher hands out every change it still holds and then reports ReceiverStoppedError, caused by the end of the watch, on this and every later receive without waiting again; while the watch is active it never reports a stop. Destroying the watcher signals the underlying watch to end.",
     ["histories", "schedules"],
     "the watch ending at any point relative to held changes and any number of later calls",
     "No test lets the watch end.",
     ["file_watcher.py"],
     [("stop recording", "file_watcher.py:FileWatcher.ready"), ("stop report", "file_watcher.py:FileWatcher.consume"), ("finalizer", "file_watcher.py:FileWatcher.__del__")],
     [("_awatch_stopped_exc", "why the watch ended", "file_watcher.py:FileWatcher")], ["FileWatcher.receive()"])

prop("C28", "Every library error is typed and attributed",
     "All exception types of the library derive from its base Error (itself a RuntimeError), in the documented hierarchy (channel, sender, receiver and select errors, closed and stopped being their special cases), and carry the exact channel, sender, receiver or Selected they were created for. Errors raised by operations on channels, senders, receivers and select loops are of these types (or a documented ValueError for bad arguments), and an error raised because of another one keeps it as its cause.",
     ["programs", "fault_sequences"],
     "every raise site and every exception class of the package",
     "Tests look at three errors; a caller catching Error relies on all of them.",
     ["_exceptions.py", "_sender.py", "_receiver.py", "_select.py", "_anycast.py", "_broadcast.py", "_merge.py", "event.py", "timer.py", "file_watcher.py"],
     [("exception classes", "_exceptions.py:Error"), ("raise sites", "_receiver.py:Receiver.receive")],
     [], ["except Error"])

prop("C29", "Channels, receivers, timers and events share no hidden state",
     "Two instances of any class of the library that were not explicitly connected by the user never influence each other: no mutable state is shared through classes, modules or default arguments, so any operation on one leaves every observable behaviour of the other unchanged.",
     ["programs", "histories"],
     "any number of instances, any operations on them",
     "Most tests create one instance; sharing needs two live ones and a specific sequence.",
     ["_anycast.py", "_broadcast.py", "_merge.py", "_select.py", "event.py", "timer.py", "file_watcher.py", "_receiver.py"],
     [("all state created per instance", "_anycast.py:Anycast.__init__")],
     [], ["any two instances"])

prop("C30", "The library never blocks or starves the event loop",
     "No library operation performs a blocking call (sleeping, file, socket or process I/O, thread synchronisation, running a nested loop), and every wait in a coroutine of the library really suspends: no loop in it can iterate forever without either suspending or consuming finite work.",
     ["schedules", "programs"],
     "every function and every loop of the package, in every state in which its loop condition keeps holding",
     "A busy wait shows only in the state where the condition does not change (full buffer, spurious wake-up, delayed clock), usually as a hang of the whole program.",
     ["_anycast.py", "_broadcast.py", "_merge.py", "_select.py", "event.py", "timer.py", "file_watcher.py"],
     [("condition waits", "_anycast.py:_Sender.send"), ("sleep in the timer loop", "timer.py:Timer.ready")],
     [], ["asyncio event loop"])

prop("C31", "Messages are opaque: their value never influences the library",
     "The library only moves messages: it never tests a message's truth value, compares it, hashes it, iterates it, checks its type (other than against its own private sentinels) or copies it, so None, 0, empty containers, exceptions, NaN or objects with hostile special methods are transported exactly like any other message through channels, map, merge, select and iteration.",
     ["inputs"],
     "all Python objects as messages through every path of the package",
     "Tests send ints and None through two paths.",
     ["_anycast.py", "_broadcast.py", "_merge.py", "_select.py", "_receiver.py"],
     [("identity sentinels", "_anycast.py:_Receiver.consume"), ("sentinel class", "_select.py:Selected.message")],
     [], ["any message value"])

prop("C32", "Observing an object never changes it",
     "Properties, len(), str(), repr() and name/limit/state accessors of every class of the library have no effect on any later behaviour: they neither consume, wake, start, stop, register nor modify anything, and do not raise in any reachable state.",
     ["histories", "programs"],
     "every observer of every class in every reachable state",
     "Tests call few observers, and never compare behaviour with and without the call; overflow logging calls them implicitly.",
     ["_anycast.py", "_broadcast.py", "_merge.py", "_select.py", "event.py", "timer.py", "file_watcher.py", "_receiver.py"],
     [("observers", "_anycast.py:Anycast.__repr__")],
     [], ["str()", "repr()", "len()", "properties"])

prop("C33", "The static types enforce message-type safety",
     "For a static type checker the public API is sound and usable: sending a message of the wrong type, using a received, mapped, merged or selected message as the wrong type, or connecting ends of incompatible channels is rejected, senders are contravariant and receivers covariant in their message type, and selected_from narrows a Selected to its receiver's message type; the corresponding correct programs are accepted.",
     ["programs"],
     "all client programs (represented by accept/reject witnesses for each typing rule)",
     "Run-time tests cannot observe annotations at all.",
     ["_anycast.py", "_broadcast.py", "_receiver.py", "_sender.py", "_select.py", "_merge.py", "event.py", "timer.py", "file_watcher.py", "_generic.py"],
     [("generic signatures", "_receiver.py:Receiver.map"), ("TypeGuard", "_select.py:selected_from")],
     [], ["mypy"])

prop("C34", "Accessors and representations tell the truth",
     "In every reachable state the accessors report what was configured and what is the case: channel name, limit, resend_latest, timer interval, missed-tick policy, loop and tolerance, watched event types are the configured values; is_closed, is_running, is_set and is_stopped are true exactly in the corresponding state; len() of a receiver is the number of messages buffered for it; the configured name appears in str() and repr() of channels, events, mergers and broadcast receivers, and derived objects (senders, receivers, mapped receivers, mergers) represent the channel or receiver they derive from.",
     ["histories", "inputs"],
     "every accessor of every class in every reachable state (opened, closed, stopped, set, overflowed, after reset, with and without explicit configuration)",
     "Tests check a handful of accessors right after construction; stale values show only after a particular history (closed with messages pending, set then consumed, reset, overflow).",
     ["_anycast.py", "_broadcast.py", "_merge.py", "event.py", "timer.py", "file_watcher.py", "_receiver.py"],
     [("channel accessors", "_anycast.py:Anycast.is_closed"), ("event state", "event.py:Event.is_set"), ("timer accessors", "timer.py:Timer.is_running")],
     [], ["is_closed", "is_running", "is_set", "is_stopped", "limit", "name", "len()", "repr()"])

prop("C35", "Delivered, dropped and rejected messages are not retained",
     "Once a message has been handed to its receivers, dropped by an overflow or rejected with an error, no object of the library keeps a reference to it, except a broadcast channel's latest message (kept for late receivers until the channel closes) and whatever the caller itself holds; a library object never accumulates messages it will not deliver.",
     ["histories"],
     "every history of sends, receives, overflows, closes and failures of channels, mapped receivers and mergers",
     "A retained message changes no delivered value; no test measures what stays referenced.",
     ["_anycast.py", "_broadcast.py", "_merge.py", "_receiver.py"],
     [("slot cleared on consume", "_anycast.py:_Receiver.consume"), ("buffer popped", "_broadcast.py:_Receiver.consume"), ("results popped", "_merge.py:Merger.consume"), ("mapped value", "_receiver.py:_Mapper.consume")],
     [], ["Receiver.consume()", "Sender.send()", "close()"])

prop("C36", "Holding only the ends of a channel is enough to keep it working",
     "A program may drop its own reference to a channel object and keep only the senders and receivers created from it: the channel is not closed or collected under them, messages sent keep arriving in order, and nothing is lost or raised because of the dropped reference. Likewise dropping some ends (without closing anything) changes nothing for the ends that remain, except that a broadcast channel stops buffering for a dropped receiver.",
     ["histories", "programs"],
     "every history of at most a few sends and receives after every reference other than the ends has been dropped, for each combination of surviving ends",
     "Tests always keep the channel in a local variable, so an ownership bug (a weak or missing reference, a finaliser that closes) never shows.",
     ["_anycast.py", "_broadcast.py", "_receiver.py"],
     [("sender owns the channel", "_anycast.py:_Sender.__init__"), ("receiver owns the channel", "_broadcast.py:_Receiver.__init__"), ("weak receivers table", "_broadcast.py:Broadcast.new_receiver")],
     [], ["Sender.send()", "Receiver.receive()"])

prop("C37", "Objects can be created before any event loop runs",
     "Channels, senders, receivers, mapped receivers, events and file watchers, and unstarted timers (auto_start=False) given an explicit loop, can be created (and events set or stopped, iterators obtained) in plain synchronous code with no running event loop, and bind to no loop until first awaited; a timer created without an explicit loop and without a running one raises RuntimeError instead of producing an unusable timer.",
     ["programs"],
     "every constructor and factory of the public API, with every combination of optional arguments",
     "All tests build their objects inside a running loop, where a premature get_running_loop(), create_task() or create_future() goes unnoticed.",
     ["_anycast.py", "_broadcast.py", "_receiver.py", "event.py", "file_watcher.py", "timer.py"],
     [("constructors", "_anycast.py:Anycast.__init__"), ("timer loop argument", "timer.py:Timer.__init__")],
     [], ["constructors", "new_sender()", "new_receiver()", "map()"])

prop("C38", "The library leaves process-wide state alone",
     "Importing or using the library has no effect on the interpreter, the process, the running event loop's configuration or the logging configuration: it prints nothing, configures no root logger, handler or level, registers no signal, exit or exception handler, changes no event loop policy, debug flag, task factory or interpreter setting, starts no thread, process or event loop, and never assigns to attributes of modules, classes or shared objects it does not own.",
     ["programs"],
     "every statement of every module of the package, at import time and in every function",
     "Such an effect shows in unrelated parts of the program that embeds the library, which its own tests do not contain.",
     ["__init__.py", "_anycast.py", "_broadcast.py", "_merge.py", "_select.py", "_receiver.py", "_sender.py", "_exceptions.py", "event.py", "timer.py", "file_watcher.py"],
     [("module loggers", "_anycast.py:_logger"), ("loop use", "timer.py:Timer.__init__")],
     [], ["import frequenz.channels"])

prop("C39", "Closing and stopping are idempotent",
     "Calling close() on a closed channel, or stop() on a stopped event, timer or merged receiver, at any time and any number of times, never raises, reopens nothing, and changes nothing about what senders and receivers report: pending messages, sets, ticks and collected results stay pending, and the stop is still reported after them.",
     ["histories"],
     "every reachable closed or stopped state, with anything pending",
     "Tests close and stop once; a second call happens in real shutdown paths where several owners clean up.",
     ["_anycast.py", "_broadcast.py", "_merge.py", "event.py", "timer.py"],
     [("close", "_anycast.py:Anycast.close"), ("close", "_broadcast.py:Broadcast.close"), ("stop", "_merge.py:Merger.stop"), ("stop", "timer.py:Timer.stop"), ("stop", "event.py:Event.stop")],
     [], ["close()", "stop()"])

prop("C40", "Anycast receivers are served fairly under contention",
     "When several receivers of an anycast channel wait concurrently, none of them is starved forever while messages keep arriving.",
     ["schedules"],
     "all infinite schedules of the event loop",
     "Fairness is a property of infinite schedules; tests observe finite prefixes.",
     ["_anycast.py"], [("condition wait queue order", "_anycast.py:_Receiver.ready")], [], ["Receiver.receive()"])

prop("C41", "Timers tick within a bounded wall-clock error",
     "On an idle event loop a timer's drift stays below the loop's clock resolution plus scheduling latency, and microsecond conversion of intervals up to years is exact.",
     ["inputs", "schedules"],
     "real time, platform clocks, IEEE rounding",
     "Depends on the real clock and on floating point values; tests use a simulated loop.",
     ["timer.py"], [("float clock to int microseconds", "timer.py:_to_microseconds")], [], ["Timer.receive()"])

prop("C42", "FileWatcher observes every file system change",
     "Every creation, modification and deletion under the watched paths is eventually reported, with coalescing limited to the documented debounce of the underlying watcher.",
     ["histories", "schedules"],
     "all file system histories",
     "Needs the operating system's notification stream; tests touch a handful of files.",
     ["file_watcher.py"], [("awatch", "file_watcher.py:FileWatcher.__init__")], [], ["FileWatcher.receive()"])

with open(OUT, "w", encoding="utf-8") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
