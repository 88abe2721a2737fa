#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property texts are maintained here)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if hook is not None: a["hook_needed"] = hook
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

ENG = "core/src/component/actual_component.rs"
p("C01", "Messages to a component are handled exactly once, in per-sender order",
  "Every message sent to a started, healthy component through any local reference kind (actor reference, strong reference, recipient, or local actor path) is handled exactly once, and the messages of one sender to one component through the same reference are handled in send order. Once the system has no more work scheduled, no sent message is left unhandled, whatever the interleaving of senders with the component's own execution.",
  ["schedules", "programs"], "all interleavings of 2-3 threads that send to and execute a component (bounded preemptions) and all job orders of small programs of sends",
  "The lost-wakeup window between emptying the mailbox and releasing the work count is a few instructions wide; the tests run it once per schedule the OS happens to pick.",
  [ENG, "core/src/component/core.rs", "core/src/component/mod.rs", "core/src/actors/refs.rs", "core/src/runtime/scheduler.rs", "core/src/runtime/mod.rs"],
  [("work count increment/decrement and scheduling decision", "core/src/component/mod.rs"), ("execute loop", ENG), ("enqueue + schedule of references", "core/src/actors/refs.rs")],
  "handler invocations recorded by the harness's component definitions", True)
p("C02", "Handlers of one component never run concurrently",
  "At any time at most one thread is running any handler of a given component, counting message, port, lifecycle and timer handlers and polls of its local or blocking futures alike. This holds for every race of senders, futures being woken, timers, lifecycle commands and pool threads.",
  ["schedules"], "all interleavings (bounded preemptions) of execution on two pool threads with sends, wake-ups and lifecycle commands",
  "Mutual exclusion violations need two pool threads to hold the same component at the same instant; tests do not control the pool.",
  [ENG, "core/src/component/mod.rs", "core/src/component/future_task.rs", "core/src/component/lifecycle.rs"],
  [("component mutex and work count", ENG), ("waker of future tasks", "core/src/component/future_task.rs")],
  "entry and exit of handlers", True)
p("C03", "Components handle events only while started; nothing is lost while stopped",
  "A component handles no message, port event or timer before it was started, while it is stopped, or after it was killed; its start, stop and kill handlers run once per corresponding transition and in command order. Messages and port events that arrive while a component is created-but-not-started or stopped are kept and handled exactly once, in order, after it is (re)started.",
  ["histories", "schedules"], "all sequences up to a bounded length of start, stop, kill, send and trigger commands, under every order in which the scheduler runs the resulting work",
  "There are exponentially many command sequences times interleavings with the component's execution; tests cover a handful of straight-line ones.",
  [ENG, "core/src/component/lifecycle.rs", "core/src/runtime/lifecycle.rs", "core/src/default_components.rs"],
  [("control queue handling", ENG), ("lifecycle state word", "core/src/component/lifecycle.rs")],
  "lifecycle and message handler invocations", False)
p("C04", "Port events reach every connected counterpart exactly once, in order",
  "An event triggered on a port is handled exactly once by each component connected to the opposite side of that port when it is triggered, and by no other component; events triggered by one component on one port are handled by each receiver in trigger order. Indications travel only from provider to requirer and requests only from requirer to provider, and after a channel is disconnected no later event crosses it while all other channels keep working.",
  ["histories", "configurations"], "all bipartite topologies of two providers and two requirers (plus three receivers), all bounded sequences of connect, trigger, disconnect and execute steps",
  "Fan-out, cancellation and shared-channel bookkeeping depend on the connection history; tests use one or two channels.",
  ["core/src/ports.rs", "core/src/component/mod.rs", "core/src/utils/mod.rs", ENG],
  [("channel lists and tombstones", "core/src/ports.rs"), ("connection helpers", "core/src/utils/mod.rs")],
  "port handler invocations", False)
p("C05", "While a blocking future is pending the component does nothing else",
  "After a handler returns a blocking future, the component runs no other handler and handles no lifecycle command until that future has completed; the future is polled again after every wake-up, sees its state changes in program order with exclusive access, and completes exactly once. Events arriving meanwhile are kept and then handled exactly once in per-sender order.",
  ["schedules", "histories"], "all orders of wake-ups, sends, stop/kill commands and pool jobs relative to one to three suspension points; thread-level races of the wake-up with the suspension (bounded preemptions)",
  "Whether a wake-up arrives before, during or after the component parks is a race that tests hit at random.",
  [ENG, "core/src/component/mod.rs", "core/src/component/future_task.rs", "core/src/component/definition.rs"],
  [("blocking future slot and state", "core/src/component/mod.rs"), ("waker", "core/src/component/future_task.rs")],
  "future progress and handler log", True)
p("C06", "Spawned component-local futures all complete, interleaved with handlers",
  "Each future a component spawns onto itself is polled only by that component, is polled again after each wake-up, and runs to completion exactly once when everything it awaits has happened, without stopping the component from handling other messages. No wake-up is lost, including one that races with the poll that returned pending.",
  ["schedules", "histories"], "all orders of completing up to three awaited events of several futures, sends and pool jobs; thread-level races of wake-up with poll",
  "The lost wake-up race and multi-future orders are not controlled by the tests.",
  [ENG, "core/src/component/mod.rs", "core/src/component/future_task.rs"],
  [("non-blocking futures map and wake queue", "core/src/component/mod.rs"), ("waker", "core/src/component/future_task.rs")],
  "future progress log", True)
p("C07", "A faulty component is isolated and its recovery action runs exactly once",
  "When a handler panics or returns an unrecoverable or recoverable error the component handles nothing more, all other components keep working, and its registered recovery action (or the default, or for an unrecoverable error its destruction without recovery) is executed exactly once, unless the system is being shut down; a benign error leaves it running with no message lost or duplicated. A component recovered by creating a replacement leaves the replacement working normally, and a fault during a lifecycle transition completes the corresponding notification with an error instead of hanging it.",
  ["histories", "fault_sequences"], "every placement of each fault kind (panic, unrecoverable, recoverable, benign) in every kind of handler within bounded programs, with every pool job order",
  "Tests place a few faults by hand; the interaction with messages queued before and after and with supervision is not enumerated.",
  [ENG, "core/src/component/mod.rs", "core/src/supervision.rs", "core/src/component/definition.rs", "core/src/runtime/system.rs"],
  [("fault handling in execute", ENG), ("supervisor fault handling", "core/src/supervision.rs")],
  "recovery function calls and handler log", False)
p("C08", "Lifecycle notification futures resolve exactly when the transition happened",
  "A future returned by a start, stop or kill notification request for a live component completes with success only after the component has run the corresponding handler (for that request, or for an earlier request of the same transition whose completion was not reported yet), and it does complete once the system has executed all scheduled work. Notification futures of different components are independent and none completes early because of another component's transition.",
  ["histories", "schedules"], "all sequences of notify requests over two components up to a bounded length, polled after every executed job in every job order",
  "Requires observing the future after each scheduler step of every order; tests only wait for it.",
  ["core/src/supervision.rs", "core/src/runtime/system.rs", ENG],
  [("listener lists in the supervisor", "core/src/supervision.rs")],
  "state of the notification futures and handler log", False)
p("C09", "System shutdown stops every component and then nothing runs",
  "Shutting a system down runs the kill handler of every live component that had been started when shutdown was requested exactly once, completes once all components are gone, and after it has completed no component handles anything. It completes for every state the components are in when it is requested: created, started, stopped, killed, with queued messages or in the middle of a handler, and also if it is requested again meanwhile or an earlier request was abandoned. A component that fails meanwhile is not replaced.",
  ["histories", "schedules"], "all combinations of states of up to three components at shutdown and all job orders",
  "Shutdown races with every lifecycle state; tests always shut down a quiescent system.",
  ["core/src/runtime/system.rs", "core/src/supervision.rs", "core/src/default_components.rs", "core/src/runtime/lifecycle.rs"],
  [("shutdown command of the supervisor", "core/src/supervision.rs"), ("system lifecycle", "core/src/runtime/lifecycle.rs")],
  "kill handlers, completion of shutdown", False)
p("C10", "Timers fire when due: once-timers once, periodic every period, cancelled never",
  "A one-shot timeout is handled exactly once, not before its delay has elapsed; a periodic timeout is handled once per elapsed period after its initial delay; a timer cancelled before its handler ran is never handled afterwards, and a handler that asks to stop its periodic timer is not called again. Timers keep working, independently of each other, for every order of scheduling, advancing time, cancelling and executing, none that is due stays unhandled once the component has no more scheduled work, and a component with nothing left to handle is not scheduled again.",
  ["histories", "schedules"], "all operation sequences to a bounded depth over up to three timers with equal and different delays: schedule once, schedule periodic, cancel, advance, execute, send",
  "Cancelling races with expiry that already queued the timeout at the component; tests use real delays and one order.",
  ["core/src/timer/timer_manager.rs", "core/src/timer/mod.rs", "core/src/component/mod.rs", ENG, "core/src/runtime/config.rs"],
  [("timeout queue and cancellation", "core/src/timer/timer_manager.rs")],
  "timer handler calls with the manual clock", False)
p("C11", "A promise is fulfilled at most once and its future always resolves",
  "The future paired with a promise resolves with exactly the value the promise was fulfilled with, or with an error if the promise is dropped unfulfilled, and never otherwise; ask requests receive exactly the reply for their own request; fulfilling fails if, and only if, the future is gone. This holds for any interleaving of fulfilling, dropping and awaiting, and waiting with a timeout either yields the value or gives the still-usable future back.",
  ["schedules", "histories"], "all bounded sequences over several promises and asks: create, fulfil, drop promise, drop future, wait, in every job order; collections of futures in every completion order",
  "Tests exercise the success path.",
  ["core/src/utils/ask.rs", "core/src/utils/mod.rs", "core/src/utils/iter_extras.rs", "core/src/actors/refs.rs"],
  [("promise and future pair", "core/src/utils/mod.rs"), ("ask", "core/src/utils/ask.rs")],
  "results of futures", False)
p("C12", "Components with a dedicated thread always run on it and never miss work",
  "All handlers of a component created with its own dedicated thread run on that one thread, for messages, port events, timers, futures and lifecycle events alike, and never on a pool thread. Work that arrives at any point of the dedicated thread's idle/park transition is handled without further stimulus, and the thread ends after the component was killed or became faulty.",
  ["schedules", "histories"], "all interleavings (bounded preemptions) of senders with the dedicated thread's spin/park loop; all event kinds for thread affinity",
  "The unpark race is a window of a few instructions.",
  ["core/src/dedicated_scheduler.rs", "core/src/ports.rs", "core/src/timer/timer_manager.rs", "core/src/actors/refs.rs"],
  [("idle/park protocol", "core/src/dedicated_scheduler.rs")],
  "thread id seen by the handlers", True)
p("C13", "One scheduling of a component is bounded and shared fairly",
  "In one scheduling a component handles at most the configured throughput of messages, port events and timers before it yields its thread, and it is scheduled again while work remains. Within it, the configured message priority decides how many messages are handled before port events get their share, so that neither a flood of messages, nor a flood of port events on one port, nor a local future that keeps yielding can starve the other kinds or other ports, also if handlers block or return benign errors.",
  ["configurations", "histories"], "all small throughput and message-priority settings times all small backlogs of messages, timers, events on two ports",
  "Bounds must hold for every setting and backlog; tests use the defaults.",
  [ENG, "core/src/component/definition.rs", "core/src/runtime/config.rs", "macros/component-definition-derive/src/lib.rs"],
  [("throughput accounting", ENG), ("derived port round robin", "macros/component-definition-derive/src/lib.rs")],
  "events handled per scheduler job", False)
p("C14", "Actor path strings parse exactly what formatting produces",
  "Formatting any unique or named actor path and parsing the text yields an equal path, for every transport, IPv4/IPv6 address, port and name; text that is not a valid path is rejected with an error and never panics. Names containing reserved characters or empty segments are rejected where a path is built, and derived paths (children, broadcast and select variants) keep system and prefix.",
  ["inputs"], "all strings up to a bounded length over the path-relevant alphabet embedded in each position, all single- and double-character mutations of valid paths, all combinations of representative components",
  "The input space is combinatorial; tests parse a dozen strings.",
  ["core/src/actors/paths.rs"],
  [("FromStr/Display", "core/src/actors/paths.rs"), ("segment validation", "core/src/actors/paths.rs")],
  "parse and format results", False)
p("C15", "Messages and actor paths survive the wire format unchanged",
  "A message serialised for the network with its sender and receiver paths, by any of the serialisation entry points (eager, lazy, cloned, preserialised), is decoded as a message with equal sender, receiver, serialisation id and payload, consuming exactly the bytes produced, and the announced size equals the size written when an exact hint is given. Decoding truncated or corrupted path or frame bytes yields an error rather than a panic or out-of-range read.",
  ["inputs"], "all combinations of path kinds, addresses, name shapes, payload sizes and serialisation routes; every truncation of each encoding and every single-byte corruption of each header",
  "Encoding bugs depend on combinations (IPv6 and named and chunk-crossing), tests cover a few.",
  ["core/src/serialisation/ser_helpers.rs", "core/src/messaging/framing.rs", "core/src/messaging/net_message.rs", "core/src/messaging/serialised.rs", "core/src/messaging/bitfields.rs"],
  [("serialise_msg / deserialise_msg", "core/src/serialisation/ser_helpers.rs"), ("path binary format", "core/src/messaging/framing.rs")],
  "decoded message vs original", False)
p("C16", "Serialisers round-trip values and reject foreign ids",
  "For every built-in serialiser (primitive types, strings, byte arrays, unit-like markers and the serde bridge) deserialising what was serialised yields the value back, and consecutive values in one buffer are read back in order. A message is only handed to a deserialiser whose id matches: mismatches give back the untouched message so that other deserialisers (and the matching macro's other arms) can still take it, and the first matching arm is the one used. Truncated or corrupted values are rejected with an error or yield some value; they never panic or allocate without bound, and text that is not UTF-8 is rejected.",
  ["inputs", "programs"], "all boundary values of each type and all short sequences of values; all arm/message/id combinations for dispatching",
  "Round-trips must hold for all values and sequences; tests use one value per type.",
  ["core/src/serialisation/default_serialisers.rs", "core/src/serialisation/serde_serialisers.rs", "core/src/messaging/net_message.rs", "core/src/messaging/deser_macro.rs", "core/src/serialisation/core.rs"],
  [("serialisers", "core/src/serialisation/"), ("try_deserialise", "core/src/messaging/net_message.rs")],
  "decoded values", False)
p("C17", "Frame decoding is independent of how the byte stream is split",
  "A byte stream of frames is decoded into the same frames in the same order however it is split into reads and across receive buffers, with no byte lost, duplicated or reordered, and an incomplete frame is reported as incomplete until its last byte arrives. Malformed input is reported as an error and never panics or reads outside the received bytes.",
  ["inputs", "schedules"], "every split of short frame streams into reads for every small buffer size, every single-byte corruption of the frame headers, every truncation",
  "The buffer-boundary cases depend on exact alignment of frames with chunks; tests hit a few alignments.",
  ["core/src/net/buffers/decode_buffer.rs", "core/src/net/frames.rs", "network/src/transport/network_channel.rs"],
  [("decode buffer", "core/src/net/buffers/decode_buffer.rs"), ("frame codec", "core/src/net/frames.rs")],
  "decoded frames", False)
p("C18", "Pooled buffers are never reused or resized while data is still leased",
  "Data written through a pooled buffer encoder and leased out stays unchanged and readable until the lease is dropped, no matter how many further messages are encoded, swapped, split, reserved or returned meanwhile; leases read back exactly the bytes written, across chunk boundaries too. The pool never exceeds its configured number of chunks, returns every chunk once its leases are gone, and reports exhaustion as an error without losing capacity.",
  ["histories", "configurations"], "all operation sequences to a bounded depth (encode of various sizes, reserve, swap, read, split, chain, drop in any order) over small pools",
  "Reuse bugs need a specific order of lease drops and swaps with a nearly exhausted pool.",
  ["core/src/net/buffers/buffer_pool.rs", "core/src/net/buffers/encode_buffer.rs"],
  [("buffer pool, buffer chunk, chunk lease, encoder", "core/src/net/buffers/")],
  "bytes read through leases", False)
p("C19", "Path registration and lookup behave like a map from paths to actors",
  "After any history of registering, updating, and deregistering unique and named paths, a lookup of a path finds exactly the actor registered last under it, its children are found for broadcast and select queries over a prefix, and a path that was never registered or was removed finds nothing. Registering an occupied name fails without changing anything unless an update was requested, and dead actors are dropped by cleanup without touching live ones.",
  ["histories"], "all operation sequences to a bounded depth over a small tree of names with common prefixes and two to three actors, compared with a reference map",
  "Histories with overlapping prefixes and updates are not enumerated by tests.",
  ["core/src/actors/paths.rs", "core/src/dispatch/lookup/mod.rs", "core/src/dispatch/lookup/gc.rs", "core/src/routing/mod.rs", "core/src/messaging/registration.rs", "core/src/default_components.rs"],
  [("actor store", "core/src/dispatch/lookup/mod.rs")],
  "lookup results", False)
p("C20", "Routing groups deliver by their policy's rule",
  "A broadcast group delivers each message to every member exactly once, a select group (round robin, sender hash, field hash) to exactly one member; round robin visits all members equally and in order even under concurrent use, and the hash policies give the same member for the same key as long as the membership is unchanged. Membership follows registration: added members receive, removed members do not, and an empty group drops or errors the message without a crash.",
  ["histories", "schedules", "inputs"], "all bounded sequences of register, deregister and route over up to four members for each policy; thread interleavings for the round robin counter",
  "Membership histories and counter wrap-around are not reached by tests.",
  ["core/src/routing/groups.rs", "core/src/routing/mod.rs"],
  [("routing policies", "core/src/routing/groups.rs"), ("group snapshot", "core/src/routing/mod.rs")],
  "messages received per member", False)
p("C21", "Path-addressed local messages reach the registered actor or the dead letters",
  "A message sent to a local actor path is handled exactly once by the actor registered under that path when it is routed, in per-sender order and with equal payload and sender whether it is sent eagerly, lazily or preserialised; if no actor is registered it goes to the dead letter handler exactly once. Registration requests are answered exactly once with the path they registered, and a failed one leaves the previous registration in force.",
  ["histories", "schedules"], "all bounded histories of register, re-register, deregister, kill and tell in every pool job order",
  "Registration races with message routing; tests wait for each step.",
  ["core/src/default_components.rs", "network/src/dispatcher.rs", "core/src/actors/paths_dispatch.rs"],
  [("dispatcher routing", "network/src/dispatcher.rs")],
  "messages received per actor", False)
p("N01", "Network messages arrive at most once, in order, and completely per session",
  "Over an established channel each message sent from one actor path to a remote one is handled at most once, in send order, with equal content, sender and receiver, and all of them are handled if the connection does not break, whatever the sizes of reads and writes the sockets perform. After a break the messages delivered within one session form a gap-free prefix of what was sent in it, and different sessions are distinguishable by their session id at the receiver.",
  ["schedules", "fault_sequences"], "all bounded deviations (short reads and writes, would-block, delivery orders, resets at each event) from the default schedule of two systems exchanging messages over a simulated network",
  "Tests use real loopback sockets, which practically never give short writes or resets at chosen points.",
  ["network/src/transport/network_thread.rs", "network/src/transport/network_channel.rs", "network/src/dispatcher.rs", "network/src/transport/mod.rs"],
  [("network channel outbound queue and reader", "network/src/transport/network_channel.rs")],
  "messages received by remote actors", False)
p("N02", "Simultaneous connection attempts converge to one working channel",
  "When two systems connect to each other, one after the other or at the same time, the handshake leaves exactly one live channel between them for every order of the handshake steps, and every message queued on either side before or during the handshake is then delivered exactly once and in order. Neither side is left waiting for the other with messages queued.",
  ["schedules"], "all bounded deviations of event order for both-initiate and one-initiates handshakes with both tie-break outcomes",
  "Simultaneous open needs both SYNs in flight at once; tests cannot force it.",
  ["network/src/transport/network_thread.rs", "network/src/transport/network_channel.rs"],
  [("hello/start/ack handshake and channel merging", "network/src/transport/network_thread.rs")],
  "live connections in the simulated network, messages received", False)
p("N03", "Lost connections are reported, retried within the limit, and resume delivery",
  "When a connection cannot be made or is lost, the system reports it, keeps messages for that remote queued, retries after the configured interval up to the configured number of attempts, and delivers the queued messages in order, once, if the remote becomes reachable again; after the last attempt it gives up exactly once, for all that was sent until then. A graceful close delivers what was sent before it and is reported as a close, not as a loss.",
  ["fault_sequences", "schedules"], "all placements of connection refusal, loss and recovery over the retry sequence, with all bounded event orders",
  "Needs controlled refusals and timer expiry.",
  ["network/src/dispatcher.rs", "network/src/transport/network_thread.rs", "network/src/transport/network_channel.rs"],
  [("connection retry and queueing", "network/src/dispatcher.rs")],
  "network status events, messages received", False)
p("N04", "A blocked system or IP range gets no channel until it is allowed again",
  "While a remote system, its address or its IP network is blocked, no message from or to it is delivered over a channel, existing channels to it are closed and new ones refused, whoever asks for them and however the request overlaps with a handshake; once it is allowed again communication resumes. Blocking or allowing one system, address or network changes nothing for others and does not disturb the channels of systems that stay allowed. A request for a system takes precedence over those for addresses and networks that cover it; otherwise the most recent applicable request decides. Every request is confirmed by its indication once it has taken effect.",
  ["histories", "schedules"], "all bounded sequences of block and allow requests for systems, addresses and networks, before and between sends from all sides, with all bounded event orders",
  "Overlapping ranges, precedence and orders are not enumerated by tests.",
  ["network/src/dispatcher.rs", "network/src/transport/network_thread.rs"],
  [("block list", "network/src/transport/network_thread.rs")],
  "messages received, network status events", False)
p("N05", "UDP messages arrive at most once and intact, each on its own",
  "A message sent by the datagram transport that fits a datagram is handled at most once, with equal content, sender and receiver, if its datagram is delivered once, and a lost datagram loses only its own message; messages too large are dropped without affecting others. Blocked sockets delay but do not drop or reorder messages, and malformed datagrams are ignored.",
  ["schedules", "fault_sequences", "inputs"], "all bounded deviations: drop, duplicate, reorder, would-block for each datagram; corrupted and truncated datagrams",
  "Loopback UDP does not drop, reorder or block.",
  ["network/src/transport/udp_state.rs", "network/src/transport/network_thread.rs"],
  [("udp outbound queue and receive", "network/src/transport/udp_state.rs")],
  "messages received by remote actors", False)
p("N06", "A remote host that breaks the protocol harms only its own connection",
  "Whatever bytes a remote host sends over a TCP connection, at whatever stage of the handshake or of closing, and however often it connects, disconnects or replaces its connection: the network keeps running without a reported failure, connections to other systems and the messages on them are undisturbed, proper messages it sent before are delivered once and in order and nothing else is, no buffers or connections are used up for good, and once it behaves it can communicate again.",
  ["inputs", "histories"], "all bounded sequences of proper, misplaced, malformed and truncated frames at each stage of a connection in either direction, with either way of ending it, repeated",
  "Tests only talk to well-behaved kompact systems, which never send these sequences.",
  ["network/src/transport/network_thread.rs", "network/src/transport/network_channel.rs"],
  [("frame dispatch of the network thread", "network/src/transport/network_thread.rs"), ("frame reader and handshake states", "network/src/transport/network_channel.rs")],
  "network status events, messages received", False)
p("N07", "Connection limits are kept without losing messages",
  "With a soft connection limit, exceeding it gracefully closes the connection that has not been used for the longest time, as reported by the network status; nothing sent is lost by that, and in the end no more than the limit are open. With a hard limit there are never more connections than that: further ones are refused in either direction and reported, existing ones are undisturbed, and connecting works again as soon as there is room.",
  ["histories", "schedules"], "all bounded sequences of sends, closings, breaks and connection requests among four systems, with all bounded event orders",
  "Tests check one fixed sequence per limit.",
  ["network/src/transport/network_thread.rs", "network/src/dispatcher.rs"],
  [("connection limits", "network/src/transport/network_thread.rs")],
  "live connections in the simulated network, network status events, messages received", False)
p("N08", "Networked systems route by path alike for local and remote senders",
  "With a network dispatcher, registering a component or a routing policy is answered exactly once with the path it is then reachable under, and a failed registration leaves the previous one in force. A message sent to such a path from the same system or over TCP or UDP from another one reaches the actor registered under it, or the members of the group according to its policy; what is for nobody goes to the dead letters if it was sent locally and is dropped otherwise, and registrations of dead actors go away. A message that is passed on to another path, on any system, arrives there once with its content and the original or the given sender.",
  ["histories", "schedules"], "all bounded histories of registrations, updates, policies, deaths, cleanups and messages from both systems, compared with a reference registry; all bounded chains of forwarding among three systems; registrations racing with messages in all bounded event orders",
  "Tests register once and send to that; updates, failed registrations, groups and forwarding combined with remote senders are not enumerated.",
  ["network/src/dispatcher.rs", "network/src/transport/network_thread.rs", "core/src/dispatch/lookup/mod.rs", "core/src/serialisation/ser_helpers.rs", "core/src/actors/paths_dispatch.rs"],
  [("networked dispatcher", "network/src/dispatcher.rs")],
  "messages received per actor, answers to registrations", False)
p("C22", "Configuration values load, override and convert exactly or fail with an error",
  "A configuration value read by a key is the last one set for it, whether from a file, a string or code, with values of other keys unchanged; a missing key gives the default if there is one and otherwise, like a malformed key, an error naming it. A textual value is converted exactly (durations, sizes, booleans, integers, lists; reals to the nearest representable value, fractions of a byte rounded up) or rejected with an error, never silently truncated, wrapped, made infinite or panicking.",
  ["inputs", "histories"], "all bounded sequences of setting and loading values over overlapping keys, and all boundary values of each converter",
  "Override order and boundary values are combinatorial.",
  ["core/src/config/mod.rs", "core/src/config/converters_for_config_values.rs", "core/src/config/converters_for_other_types.rs", "core/src/runtime/config.rs"],
  [("config entries and converters", "core/src/config/")],
  "values read", False)
p("C23", "Packed header fields store and return exactly what was put in",
  "Every field packed into a shared header word reads back exactly the value stored in it, whatever values the other fields have and in whatever order they are written, and storing one field never changes another. A raw header holding an undefined value is rejected with an error.",
  ["inputs"], "all values of all fields in all write orders, all raw header bytes",
  "A mask or offset error shows only for particular value combinations.",
  ["core/src/messaging/bitfields.rs", "core/src/messaging/framing.rs"],
  [("bit field packing", "core/src/messaging/bitfields.rs")],
  "values read back", False)
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in sorted(P, key=lambda x: x["id"]):
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
