#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Logical behaviour is a deterministic function of the program",
 "For a program whose reactions are driven only by startup, timers, logical actions and ports, the sequence of tags, the set of reactions executed at each tag, the inputs each reaction sees and every reactor's resulting state are a function of the program alone. They are the same for the single-threaded runtime, for every threaded scheduler, for every number of workers and for every interleaving of those workers, and equal to the reference semantics of reactors.",
 ["programs", "schedules", "configurations"],
 "every acyclic reactor program (multiports, feedback through actions, timers, superdense loops) x {single-threaded, NP, GEDF_NP, ADAPTIVE} x worker counts x interleavings",
 "The unit tests never execute a reactor program: they exercise containers and one scheduling call. Determinism quantifies over programs and interleavings.",
 ["core/reactor.c", "core/reactor_common.c", "core/threaded/reactor_threaded.c", "core/threaded/scheduler_NP.c", "core/threaded/scheduler_GEDF_NP.c", "core/threaded/scheduler_adaptive.c", "core/threaded/scheduler_sync_tag_advance.c"],
 [("pop events of the next tag and enqueue their reactions", "core/reactor_common.c _lf_pop_events"), ("propagate outputs to downstream reactions", "core/reactor_common.c schedule_output_reactions"), ("level-by-level / EDF scheduling", "core/threaded/scheduler_*.c lf_sched_get_ready_reaction"), ("single-threaded loop", "core/reactor.c _lf_do_step")],
 ["body of every reaction (tag, present inputs, state hash)"])

prop("C02", "Reactions of a tag run once, in dependency order, in mutual exclusion",
 "At each tag a triggered reaction executes exactly once, after every reaction of that tag that it depends on (earlier reactions of the same reactor and reactions that may write its inputs) has finished, and no two reactions of the same reactor ever overlap. No reaction of the next tag starts before every reaction of the current tag has finished.",
 ["programs", "schedules", "configurations"],
 "every program, every scheduler, every worker count, every interleaving of worker threads at memory-access granularity",
 "No existing test runs more than one worker over a reaction graph; races need a particular interleaving.",
 ["core/threaded/scheduler_NP.c", "core/threaded/scheduler_GEDF_NP.c", "core/threaded/scheduler_adaptive.c", "core/threaded/reactor_threaded.c", "core/threaded/scheduler_sync_tag_advance.c", "core/utils/lf_semaphore.c", "core/utils/pqueue.c"],
 [("enqueue a reaction at most once", "scheduler_*.c lf_scheduler_trigger_reaction"), ("advance to the next level only when all workers are idle", "scheduler_NP.c / scheduler_adaptive.c"), ("reaction queue ordered by level and deadline", "scheduler_GEDF_NP.c")],
 ["begin/end of every reaction body"])

prop("C03", "Tags only grow, and logical time never runs ahead of physical time",
 "The tag at which reactions execute strictly increases from one step to the next in time and then microstep, no event is ever executed at a tag other than the one it was scheduled for, and no reaction executes after the stop tag. Unless fast execution was requested, no reaction executes at a logical time greater than the physical time at its start (beyond the 10 microseconds below which the threaded runtime documents that it does not sleep).",
 ["programs", "schedules", "inputs"],
 "every program, pattern of execution times, asynchronous interruptions of a wait, spurious wake-ups and scheduler",
 "The tests do not advance time over an event queue.",
 ["core/reactor.c", "core/threaded/reactor_threaded.c", "core/threaded/scheduler_sync_tag_advance.c", "core/reactor_common.c", "low_level_platform/impl/src/lf_unix_clock_support.c", "low_level_platform/impl/src/lf_linux_support.c"],
 [("wait until physical time reaches the tag", "reactor_threaded.c wait_until / reactor.c wait_until"), ("advance the tag", "core/reactor_common.c _lf_advance_tag")],
 ["tag and physical time at the start of each reaction"])

prop("C04", "Scheduling a logical action yields exactly the tag the semantics prescribe",
 "An event scheduled on a logical action occurs at the current time plus minimum delay plus additional delay, or at the next microstep if that sum is zero; negative additional delays count as zero. When the result is earlier than the action's previously scheduled event plus its minimum spacing, the action's policy decides: drop discards the new event, replace gives the pending previous event the new value (or defers if it was already handled), defer moves the new event to the earliest allowed time; without minimum spacing, events that collide are kept at consecutive microsteps in the order scheduled. Every event that is accepted and not replaced is delivered exactly once, with its own value.",
 ["inputs", "histories"],
 "every sequence of schedule calls with every combination of min delay, spacing, policy, additional delay, stop time and payload",
 "scheduling_api_test samples a few random delays on two triggers and never looks at resulting tags, collisions or policies.",
 ["lib/schedule.c", "core/reactor_common.c", "core/utils/pqueue_tag.c", "core/tag.c"],
 [("compute tag, spacing policy, conflicts", "lib/schedule.c lf_schedule_trigger"), ("find pending event at a tag", "core/utils/pqueue_tag.c pqueue_tag_find_equal_same_tag"), ("tag delay arithmetic", "core/tag.c lf_delay_tag")],
 ["reactions triggered by the actions: tag and value"])

prop("C05", "Physical actions are stamped by the physical clock and never lost",
 "A physical action scheduled from a reaction or from another thread gets a tag with time physical time at the call plus its delays, unless spacing defers it, and always later than the current tag; none is lost, duplicated, delivered in the past or out of order with respect to tags. An idle or sleeping runtime is woken so that the event is handled no later than its own time, not after the wait it interrupted.",
 ["schedules", "histories", "inputs"],
 "every arrival time relative to tag advance, waits, idle periods and stop, from any number of external threads, under every scheduler",
 "Requires asynchronous arrivals at particular instants; no test starts the runtime loop.",
 ["lib/schedule.c", "core/threaded/reactor_threaded.c", "core/reactor.c", "low_level_platform/impl/src/lf_linux_support.c", "low_level_platform/impl/src/lf_unix_clock_support.c"],
 [("physical timestamp", "lib/schedule.c lf_schedule_trigger"), ("interrupt a wait", "reactor_threaded.c wait_until, lf_notify_of_event")],
 ["tag, value and physical time of each delivered event"])

prop("C06", "Timers fire at offset + k*period and at no other tag",
 "A timer fires exactly at start time + offset + k*period, microstep 0, for every k>=0 up to and including the stop time (once, if the period is zero), however late the program runs and whatever else executes. Timers that coincide fire at the same tag, and each triggers each of its reactions once.",
 ["inputs", "programs", "configurations"],
 "every set of offsets and periods (including zero), timeouts, execution delays and other activity, single-threaded and every scheduler",
 "No test runs a timer.",
 ["core/reactor_common.c", "core/reactor.c", "core/threaded/reactor_threaded.c", "lib/schedule.c"],
 [("first firing", "core/reactor_common.c _lf_initialize_timer"), ("periodic rescheduling", "core/reactor_common.c _lf_pop_events")],
 ["reactions triggered by timers"])

prop("C07", "Startup and shutdown happen exactly once, at the right tags",
 "Startup reactions execute once at the start tag and shutdown reactions once at the final tag, as the last tag executed. The final tag is the earliest of start time + timeout, the microstep after the first stop request, and, when no events remain and keepalive is off, the microstep after the last event; every event with a tag up to and including the final tag is processed and none after it, and the program then terminates with all its threads.",
 ["programs", "schedules", "histories", "configurations"],
 "every combination of timeout, stop requests (repeated, at the timeout, from outside), starvation, keepalive, scheduler and worker count",
 "No test runs a program to termination.",
 ["core/reactor.c", "core/reactor_common.c", "core/threaded/reactor_threaded.c", "core/threaded/scheduler_sync_tag_advance.c", "core/environment.c"],
 [("stop tag", "core/reactor_common.c lf_set_stop_tag"), ("stop request", "reactor.c / reactor_threaded.c lf_request_stop"), ("starvation", "core/reactor.c next, reactor_threaded.c _lf_next_locked")],
 ["startup, shutdown and event reactions; process exit"])

prop("C08", "Ports and actions are present exactly when written at the current tag",
 "In every reaction an input or action reads as present if and only if it was written, or its event occurs, at the current tag, with the last value written, and as absent otherwise, whatever happened at earlier tags. Iterating over a multiport with the multiport iterator yields exactly the present channels, each once, in ascending order, for every width and every pattern of writes.",
 ["programs", "inputs", "schedules"],
 "every program with multiports of any width (including wide sparse ones), write patterns and order, repeated writes, and concurrent writers",
 "No test sets a port.",
 ["core/port.c", "core/reactor_common.c", "core/environment.c", "include/core/port.h", "include/api/reaction_macros.h"],
 [("set present, record sparse channels", "core/port.c lf_set_present"), ("multiport iteration", "core/port.c lf_multiport_next, _lf_multiport_iterator_impl"), ("reset at a new tag", "core/reactor_common.c _lf_start_time_step")],
 ["is_present and iteration result inside reactions"])

prop("C09", "Messages passed by reference live exactly as long as they are used",
 "A dynamically allocated message sent through ports or actions is delivered unchanged to every destination, is never released while an input, action or pending event still refers to it, and is released exactly once when nothing does, by the type's destructor if there is one. A writable copy is a private mutable version: mutating it is never visible to another reaction, it is made by the copy constructor if there is one, and it is reused in place only when no one else can read the value.",
 ["programs", "histories", "schedules"],
 "every pattern of sending, forwarding, scheduling, replacing, dropping, copying and broadcasting tokens, at any fan-out, including termination with messages pending",
 "No test creates a token.",
 ["core/lf_token.c", "include/core/lf_token.h", "include/api/reaction_macros.h", "lib/schedule.c", "core/reactor_common.c"],
 [("reference counting and recycling", "core/lf_token.c _lf_done_using, _lf_free_token, _lf_replace_template_token"), ("writable copies", "core/lf_token.c lf_writable_copy")],
 ["allocation, copy-constructor and destructor calls; payload contents inside reactions"])

prop("C10", "A deadline handler runs exactly when its deadline is missed",
 "When a reaction with a deadline is about to execute, its deadline handler runs instead of its body if and only if physical time exceeds the tag's time by more than the deadline (a zero deadline is always missed); outputs of the handler propagate like those of the body. An explicit deadline check inside a reaction reports true exactly when the deadline has passed at that instant.",
 ["inputs", "schedules", "programs"],
 "every deadline, lateness (before, at, after the boundary), position in a reaction chain, scheduler and execution path",
 "No test has a deadline.",
 ["core/reactor.c", "core/reactor_common.c", "core/threaded/reactor_threaded.c", "lib/schedule.c", "core/threaded/scheduler_GEDF_NP.c"],
 [("violation test before invocation", "core/reactor.c _lf_do_step, core/threaded/reactor_threaded.c _lf_worker_handle_deadline_violation_for_reaction, core/reactor_common.c schedule_output_reactions"), ("explicit check", "lib/schedule.c lf_check_deadline")],
 ["which of body and handler runs, and physical time then"])

prop("C11", "Modal reactors: only active modes react, and local time is frozen elsewhere",
 "Reactions, timers and actions inside a mode act only while that mode and all enclosing modes are active; a mode switch requested in a reaction takes effect at the next microstep, and the last request in a tag wins. Entering a mode with reset restarts its timers, discards its pending events, triggers its reset reactions and resets its reset-state variables and nested modes; entering with history resumes pending timers and actions with exactly the remaining time they had when the mode was left. Startup reactions of a mode run once, on first activation; shutdown reactions run at shutdown only if their mode was ever active.",
 ["programs", "histories"],
 "every nesting of modal reactors and modes, sequence of reset/history switches, pending timers and actions, and scheduler",
 "No test compiles modal support, let alone runs a mode switch.",
 ["core/modal_models/modes.c", "include/core/modal_models/modes.h", "core/reactor_common.c"],
 [("mode switch processing", "core/modal_models/modes.c _lf_process_mode_changes"), ("activity test", "modes.c _lf_mode_is_active"), ("startup/reset/shutdown", "modes.c _lf_handle_mode_*")],
 ["all reactions of modal programs"])

prop("C12", "A watchdog fires exactly when started and not stopped or restarted in time",
 "A started watchdog invokes its handler once, when its timeout measured from the current logical time has passed, unless it is stopped or restarted before that; a restarted one expires relative to the restart. The handler never overlaps a reaction of its reactor, what it schedules is delivered, and pending watchdogs never prevent or outlive termination.",
 ["schedules", "histories", "inputs"],
 "every interleaving of start, stop, restart, expiry, reactions and shutdown",
 "No test has a watchdog; the behaviour depends on thread interleaving.",
 ["core/threaded/watchdog.c", "include/core/threaded/watchdog.h", "core/reactor_common.c"],
 [("start/stop", "core/threaded/watchdog.c lf_watchdog_start, lf_watchdog_stop"), ("expiry thread", "watchdog.c watchdog_thread_main"), ("termination", "watchdog.c _lf_watchdog_terminate_all")],
 ["watchdog handlers and reactions, physical time of each"])

prop("C13", "The threaded runtime never deadlocks and always makes progress",
 "Whatever the interleaving of workers, external threads, tag barriers and stop requests, a program with a finite number of events up to its stop tag reaches termination: no lost wake-up, no deadlock, no worker that stops taking ready reactions. Every worker thread created is joined.",
 ["schedules", "programs", "configurations"],
 "every interleaving at synchronisation and memory-access granularity for every scheduler and number of workers from 1 up",
 "Needs control over thread interleaving.",
 ["core/threaded/reactor_threaded.c", "core/threaded/scheduler_NP.c", "core/threaded/scheduler_GEDF_NP.c", "core/threaded/scheduler_adaptive.c", "core/threaded/scheduler_sync_tag_advance.c", "core/utils/lf_semaphore.c", "low_level_platform/impl/src/lf_linux_support.c"],
 [("worker loop, wait for work", "scheduler_*.c lf_sched_get_ready_reaction, lf_sched_done_with_reaction"), ("semaphore", "core/utils/lf_semaphore.c"), ("tag barrier", "core/threaded/reactor_threaded.c _lf_increment_tag_barrier, _lf_decrement_tag_barrier_locked")],
 ["termination of the program under a controlled scheduler"])

prop("C14", "Command-line options are interpreted as documented",
 "Every well-formed combination of the command-line options (fast, timeout with each unit, keepalive, workers, federation id, RTI address) yields exactly the corresponding configuration, with later options overriding earlier ones. A timeout too large to be represented means no timeout earlier than the largest time. A missing argument, an unparsable time, an unknown option or unit and a malformed RTI address are reported by failure; an invalid boolean is reported and leaves the setting as it is, and an invalid number of workers means one. No argument vector causes a crash or a read beyond it.",
 ["inputs"],
 "every argument vector",
 "No test parses arguments.",
 ["core/reactor_common.c", "core/federated/network/net_util.c"],
 [("argument parser", "core/reactor_common.c process_args")],
 ["resulting settings and return value"])

prop("C15", "Priority queues always yield a minimum and keep exactly their contents",
 "Under every sequence of inserts, pops, removals, priority changes and searches, the reaction queue and the tag-ordered event queue contain exactly the elements inserted and not removed; pop and peek return an element of minimal priority or tag, find-by-equality returns a matching element if and only if one exists, and removal or pop-up-to-a-tag affects precisely the elements it names.",
 ["histories", "inputs"],
 "every operation history over queues of every size, with duplicates, equal tags and extreme tags",
 "The unit tests use one fixed history of a few elements.",
 ["core/utils/pqueue_base.c", "core/utils/pqueue.c", "core/utils/pqueue_tag.c", "include/core/utils/pqueue_base.h"],
 [("heap operations", "core/utils/pqueue_base.c bubble_up, percolate_down, pqueue_insert, pqueue_remove, pqueue_change_priority, find_equal"), ("tag queue", "core/utils/pqueue_tag.c")],
 ["public queue API"])

prop("C16", "Containers (hash set, hash map, vector, deque) behave as their abstract types",
 "Under every sequence of their public operations the hash set is a set of pointers, the hash map a finite map, the vector a growable sequence and the deque a double-ended queue: membership, lookup, iteration, size and order match the abstract value after every operation, through growth, deletion and reuse. No operation within the documented preconditions reads or writes memory outside the container.",
 ["histories", "inputs"],
 "every operation history, including collisions, growth, removal during probing sequences and emptying",
 "The unit tests run fixed or lightly randomised histories without removal/collision coverage; deque has no test.",
 ["core/utils/hashset/hashset.c", "core/utils/hashset/hashset_itr.c", "include/core/utils/impl/hashmap.h", "core/utils/vector.c", "util/deque.c"],
 [("open addressing hash set", "core/utils/hashset/hashset.c"), ("hash map template", "include/core/utils/impl/hashmap.h"), ("vector", "core/utils/vector.c"), ("deque", "util/deque.c")],
 ["public container API"])

prop("C17", "Tag and time arithmetic is exact, ordered and saturating",
 "Tag comparison is the lexicographic total order on (time, microstep). Adding an interval to a time or tag saturates at the largest and smallest values and never wraps: delaying a tag by a positive interval gives microstep 0 at the delayed time, by zero the next microstep, adding FOREVER or NEVER is absorbing, and the strict variant gives the largest tag that is strictly earlier than the arrival of anything sent after the given tag. Negative intervals mean no delay.",
 ["inputs"],
 "all times, microsteps and intervals, including the extreme values",
 "tag_test checks a handful of values.",
 ["core/tag.c", "tag/api/tag.h"],
 [("tag arithmetic", "core/tag.c lf_tag_compare, lf_tag_add, lf_delay_tag, lf_delay_strict, lf_time_add")],
 ["public tag API"])

prop("C18", "The physical clock never runs backward",
 "Successive readings of physical time, from one or several threads and whatever the underlying system clock and clock-synchronisation offset do, never decrease and differ from the underlying clock by no more than needed for that. Elapsed time is the reading minus the start time.",
 ["inputs", "schedules", "fault_sequences"],
 "every sequence of system clock readings (stalls, jumps back and forth) and offset adjustments, with concurrent readers",
 "Needs a scripted system clock and interleaving control.",
 ["core/clock.c", "include/core/clock.h", "core/tag.c", "core/federated/clock-sync.c"],
 [("monotonic reading", "core/clock.c lf_clock_gettime"), ("offset", "core/federated/clock-sync.c clock_sync_add_offset, clock_sync_set_constant_bias")],
 ["lf_time_physical, lf_time_physical_elapsed"])

prop("C19", "Human-readable times denote the time they were given",
 "The readable and comma-separated renderings of a time parse back to exactly that time, for every time including zero, negative and extreme ones, and fit the documented buffer size.",
 ["inputs"],
 "all 64-bit times",
 "tag_test only formats one value.",
 ["core/tag.c", "tag/api/tag.h"],
 [("formatting", "core/tag.c lf_readable_time, lf_comma_separated_time")],
 ["returned text and its length"])

prop("C20", "Mixed-radix counters enumerate bank and port permutations exactly",
 "A mixed-radix number incremented n times denotes n modulo its range, its integer value drops the requested number of least significant digits correctly, and its parent value matches positional arithmetic, for every number of digits and radixes.",
 ["inputs", "histories"],
 "all radix vectors and counts",
 "No test.",
 ["core/mixed_radix.c", "include/core/mixed_radix.h"],
 [("increment / parent / to int", "core/mixed_radix.c")],
 ["mixed radix API"])

prop("F01", "The RTI never grants a tag at which a federate could still receive a message",
 "In every history of connections, next-event reports, completions, messages and resignations, when the coordinator grants a federate advance to a tag, no message with a tag less than or equal to it (strictly less, for a provisional grant) can later reach that federate from any federate upstream of it through any path of delays. Tags granted to a federate never decrease, and a full grant is never repeated.",
 ["histories", "configurations", "schedules"],
 "every topology of federates with every connection delay (zero, positive, NEVER = no delay), including cycles, and every legal history",
 "rti_common_test covers two or three fixed topologies with single steps.",
 ["core/federated/RTI/rti_common.c", "core/federated/RTI/rti_remote.c"],
 [("grant decision", "core/federated/RTI/rti_common.c tag_advance_grant_if_safe"), ("earliest future incoming message", "rti_common.c earliest_future_incoming_message_tag, eimt_strict"), ("on events", "rti_remote.c handle_next_event_tag, handle_latest_tag_confirmed, handle_timed_message")],
 ["grants sent to each federate"])

prop("F02", "The RTI grants progress whenever it is safe",
 "Whenever every federate of a federation has reported its next event, the coordinator eventually grants at least one federate with a finite next event, so that a federation of well-behaved federates always completes all its events up to the stop time. A federate without upstream federates never waits, and a federate's resignation or disconnection never blocks the others.",
 ["histories", "configurations", "schedules", "fault_sequences"],
 "every topology (including zero-delay cycles), every order of reports and every point of resignation",
 "Needs histories with several federates.",
 ["core/federated/RTI/rti_common.c", "core/federated/RTI/rti_remote.c"],
 [("grant decision and propagation", "rti_common.c notify_advance_grant_if_safe, notify_downstream_advance_grant_if_safe"), ("resignation", "rti_remote.c handle_federate_resign, handle_federate_failed")],
 ["grants sent to each federate"])

prop("F03", "The RTI's view of upstream delays equals the shortest-path delays",
 "For every federation topology the minimum delay the coordinator attributes to each transitive upstream federate equals the least sum of connection delays over all paths from it, and a federate is recognised as part of a cycle, or of a zero-delay cycle, exactly when such a cycle through it exists.",
 ["configurations"],
 "all topologies up to a size, with delays in {none, 0, finite, large}, parallel paths and cycles",
 "rti_common_test has two fixed graphs.",
 ["core/federated/RTI/rti_common.c", "core/federated/RTI/rti_common.h"],
 [("closure computation", "core/federated/RTI/rti_common.c update_min_delays_upstream, update_all_downstream_nodes, is_in_cycle, is_in_zero_delay_cycle")],
 ["delays, cycle predicates"])

prop("F04", "All federates of a federation get one common start time, late enough for all",
 "The coordinator starts a federation only when all federates have joined and proposed a time, and then sends every federate the same start time, which is the maximum of the proposals plus the fixed startup delay.",
 ["histories", "schedules", "inputs"],
 "every number of federates, order and value of proposals, arrival pattern and fragmentation",
 "No test starts an RTI.",
 ["core/federated/RTI/rti_remote.c", "core/federated/RTI/main.c"],
 [("start time negotiation", "core/federated/RTI/rti_remote.c handle_timestamp, send_start_tag")],
 ["bytes received by each federate"])

prop("F05", "Federated stop is a consensus on one tag no federate has passed",
 "When federates request to stop, every connected federate is eventually told the same stop tag, exactly once, which is at least the tag of every request and of every reply. Repeated and simultaneous requests, and resignations while the stop is being negotiated, do not change this or block it.",
 ["histories", "schedules", "fault_sequences"],
 "every number of requesters, order of requests and replies, and resignation point",
 "No test starts an RTI.",
 ["core/federated/RTI/rti_remote.c", "core/federated/RTI/rti_common.c"],
 [("stop negotiation", "core/federated/RTI/rti_remote.c handle_stop_request_message, handle_stop_request_reply, mark_federate_requesting_stop, broadcast_stop_time_to_federates_locked")],
 ["stop requests and grants received by each federate"])

prop("F06", "The RTI forwards every message intact, in order, to the right federate",
 "Each message (tagged or port-absent) that a federate sends through the coordinator arrives at its destination exactly once, byte for byte, whatever its size and however the byte stream is fragmented, in the order sent by each sender, and before any grant covering its tag. Messages to a federate that has left are discarded without affecting any other federate.",
 ["inputs", "histories", "schedules", "fault_sequences"],
 "every payload size from 0 to well beyond the internal buffer, fragmentation, interleaving of senders, and departed destinations",
 "No test opens a socket.",
 ["core/federated/RTI/rti_remote.c", "core/federated/network/net_util.c"],
 [("forwarding", "core/federated/RTI/rti_remote.c handle_timed_message, handle_port_absent_message"), ("socket I/O", "core/federated/network/net_util.c read_from_socket, write_to_socket")],
 ["bytes received by each federate"])

prop("F07", "Only the right federates can join a federation, each id once",
 "The coordinator accepts a connection if and only if it identifies itself with the federation's identifier and an unused federate id within range (and, when authentication is enabled, proves knowledge of the shared identifier); every other connection is rejected with a reason and closed. No sequence of bytes sent by a peer before joining crashes the coordinator or prevents the legitimate federates from joining.",
 ["inputs", "fault_sequences", "histories"],
 "every join message (ids, lengths, truncation, wrong types, duplicates), order of arrival and authentication mode",
 "No test opens a socket.",
 ["core/federated/RTI/rti_remote.c", "core/federated/network/net_util.c"],
 [("joining", "core/federated/RTI/rti_remote.c lf_connect_to_federates, receive_and_check_fed_id_message, receive_connection_information, receive_udp_message_and_set_up_clock_sync, authenticate_federate")],
 ["replies of the RTI"])

prop("F08", "Bytes move over a socket exactly and in order, or the failure is reported",
 "Whatever pieces the operating system moves at a time and however often it interrupts a call or asks to try again, reading n bytes from a socket takes exactly the next n bytes of the stream and writing n bytes gives exactly those to it, in order, once each; nothing is taken or given beyond them and no buffer is exceeded. The end of the stream and every other error is reported (1 or -1) at once; peeking shows the next byte without taking it or blocking. The variants that close on an error shut down and close the socket exactly once and mark it closed, and leave it open otherwise; the variants that fail on an error also release the caller's mutex and report it. A socket marked closed is not used.",
 ["inputs", "fault_sequences", "histories"],
 "every history of transfers and every sequence of partial transfers, interruptions and errors",
 "No test transfers anything.",
 ["core/federated/network/net_util.c", "include/core/federated/network/net_util.h"],
 [("transfers", "core/federated/network/net_util.c read_from_socket*, write_to_socket*, peek_from_socket")],
 ["bytes", "descriptors"])

prop("F10", "Network encodings round-trip and RTI addresses parse as documented",
 "Every integer, tag, header and message encoded for the network decodes to the same value on any host byte order, and every RTI address string of the documented form user@host:port is split into exactly its parts, while malformed ones are rejected without writing out of bounds.",
 ["inputs"],
 "all values and all address strings",
 "No test.",
 ["core/federated/network/net_util.c", "include/core/federated/network/net_util.h"],
 [("codecs", "core/federated/network/net_util.c encode_*, extract_*, swap_bytes_if_big_endian_*"), ("address parser", "net_util.c extract_rti_addr_info, match_regex")],
 ["decoded values"])

prop("F12", "A federated program behaves like its centralised reference",
 "Under centralised coordination a federated execution delivers every message over a logical connection at exactly its tag plus the connection's delay, each federate executes the same reactions at the same tags in the same order with the same values as the same program executed without federation, whatever the speed of federates and network, and the federation terminates cleanly: every federate ends at the timeout or, together with all others that had not ended by then, at one agreed stop tag.",
 ["programs", "schedules", "configurations"],
 "every topology of federates with delays, cycles and message sizes, and every relative speed",
 "No test runs a federation.",
 ["core/federated/federate.c", "core/federated/RTI/rti_remote.c", "core/federated/RTI/rti_common.c", "core/threaded/reactor_threaded.c"],
 [("federate protocol", "core/federated/federate.c lf_send_next_event_tag, handle_tagged_message, handle_tag_advance_grant, handle_provisional_tag_advance_grant"), ("port absent and status", "core/federated/federate.c lf_send_port_absent_to_federate, lf_stall_advance_level_federation")],
 ["reactions of each federate"])

prop("F13", "Decentralised federations lose nothing, handle lateness, and match the reference",
 "Under decentralised coordination every message over a logical connection is processed exactly once, in order, at its intended tag or, if it comes too late for that, at a later one, never earlier; a late message invokes the STP violation handlers of exactly the reactions it reaches first that have one, and its intended tag is visible. If the STA offsets suffice for the delays of network and federates, no message is late and the federation executes exactly like the same program without federation; in any case it executes like the reference on the messages as received, never deadlocks, and every federate ends at the timeout.",
 ["programs", "schedules", "configurations"],
 "every topology, STA and STAA offset, message delay and relative speed",
 "No test runs a federation.",
 ["core/federated/federate.c", "core/reactor_common.c", "core/threaded/reactor_threaded.c"],
 [("messages", "core/federated/federate.c handle_tagged_message, schedule_message_received_from_network_locked, handle_message_now"), ("waiting", "core/federated/federate.c lf_wait_until_time, update_ports_from_staa_offsets, lf_update_max_level; core/threaded/reactor_threaded.c _lf_increment_tag_barrier"), ("violations", "core/reactor_common.c _lf_pop_events, schedule_output_reactions; core/threaded/reactor_threaded.c _lf_worker_handle_STP_violation_for_reaction")],
 ["reactions of each federate"])

prop("E01", "Scheduling enclaves advance together only as far as is safe",
 "With scheduling enclaves in one process, an enclave executes a tag only when no connected upstream enclave can still produce an event for it at that tag or earlier, enclaves without such upstreams never wait for others, and every enclave reaches the stop tag. Events that cross enclaves are never late and never lost.",
 ["programs", "schedules"],
 "every topology of enclaves, delays and interleavings",
 "No test compiles enclaves.",
 ["core/federated/RTI/rti_local.c", "core/federated/RTI/rti_common.c", "core/threaded/reactor_threaded.c"],
 [("local RTI", "core/federated/RTI/rti_local.c rti_next_event_tag_locked, rti_logical_tag_complete_locked, rti_request_stop_locked")],
 ["reactions of each enclave"])

prop("F11", "Clock synchronisation estimates the offset exactly as specified",
 "From the four timestamps of an exchange the client's estimate of clock offset and delay is the standard symmetric-delay estimate, initial synchronisation applies it in full, and runtime synchronisation applies the attenuated average of the configured number of exchanges, discarding rounds with a missing message or whose coded probe shows irregular delay, and whole intervals whose round-trip delays vary by the guard band or more (standard deviation). The offset does not change otherwise.",
 ["inputs", "histories"],
 "every sequence of timestamps and network delays",
 "No test.",
 ["core/federated/clock-sync.c", "include/core/federated/clock-sync.h"],
 [("estimation", "core/federated/clock-sync.c handle_T1_clock_sync_message, handle_T4_clock_sync_message")],
 ["adjusted clock readings"])

prop("T01", "A trace records every traced event, in order per thread, and decodes faithfully",
 "Every trace event recorded by a thread during an execution appears in the trace file exactly once, with its own tag, physical time, worker, source and pointer fields and in the order recorded by that thread, whatever the number of threads and events; the object table maps each registered pointer to its description. The conversion tools render exactly those records. A trace that cannot be written does not disturb the program.",
 ["histories", "schedules", "inputs"],
 "every number of events (across buffer flushes), threads and registrations",
 "No test writes a trace.",
 ["trace/impl/src/trace_impl.c", "core/tracepoint.c", "util/tracing/trace_util.c", "util/tracing/trace_to_csv.c"],
 [("record and flush", "trace/impl/src/trace_impl.c lf_tracing_tracepoint, flush_trace, write_trace_header"), ("decoding", "util/tracing/trace_util.c read_header, read_trace; trace_to_csv.c")],
 ["trace file, CSV output"])

prop("T02", "The trace of a program shows what the program did",
 "In a program compiled for tracing, every execution of a reaction yields one start and one end record of its worker with the reactor, reaction number, tag, deadline and a physical time at which it executed, every violated deadline one record before the handler, every timer and action event put on the event queue one schedule record with its trigger, the tag at which and the delay with which it was scheduled, every user tracepoint one record between the start and the end of its reaction, and worker waits alternate; tracing changes neither what the program does nor how many threads (workers, watchdogs, user threads) it may have.",
 ["inputs", "schedules", "histories"],
 "every program, schedule and number of records",
 "No test writes a trace.",
 ["core/tracepoint.c", "core/reactor_common.c", "core/threaded/reactor_threaded.c", "core/reactor.c", "lib/schedule.c", "trace/impl/src/trace_impl.c"],
 [("tracepoints", "include/core/tracepoint.h; core/reactor_common.c _lf_invoke_reaction; lib/schedule.c lf_schedule_trigger"), ("threads", "core/reactor_common.c initialize_global")],
 ["trace file"])

prop("T03", "The traces of a federation show the messages between its parts",
 "In a federation whose RTI and federates are traced, every message between the RTI and a federate, or between two federates, of the coordination protocol (joining, start time, NET, LTC, TAG, PTAG, absent ports, stop requests, resignation, addresses) and of the program is one record of its kind in the trace of the sender and one in the trace of the receiver, each naming its own side and the other, with the same tag and not received before it was sent; only messages to a federate that had ended have no second record. The messages of the program in the traces are those its reactions sent, and all traces have the same start time.",
 ["inputs", "schedules", "histories", "configurations"],
 "every federation, schedule, network behaviour and kind of coordination",
 "No test runs a federation.",
 ["core/tracepoint.c", "core/federated/federate.c", "core/federated/RTI/rti_remote.c", "core/federated/RTI/main.c", "trace/impl/src/trace_impl.c", "core/reactor_common.c"],
 [("records", "core/tracepoint.c; calls of tracepoint_federate_* and tracepoint_rti_*"), ("pairing", "util/tracing/visualization/fedsd.py")],
 ["trace files"])

prop("U01", "Reading a wave file yields exactly its samples, or NULL",
 "read_wave_file returns the channels, length and samples of every wave file of the supported format (16-bit linear PCM at 44.1 kHz, any number of channels), whatever chunks precede or follow the data, and NULL with a message for files that do not exist, have another format, are cut before their data or contain none. It never reads or writes out of bounds, and leaves no file open and no memory allocated but what it returns.",
 ["inputs"],
 "every file content",
 "No test.",
 ["util/wave_file_reader.c", "util/wave_file_reader.h"],
 [("reader", "util/wave_file_reader.c read_wave_file")],
 ["returned waveform"])

prop("P01", "Python reactions see and cause exactly what the runtime delivers",
 "Through the Python target's API every reaction sees the tag, times, and the presence and value of every port, multiport channel (by index, length and iteration) and action that the runtime has at that tag; what it sets, schedules (with its delay and value), requests or which mode it sets takes effect as for the same program in C. Misuse such as an index out of range raises an exception. Every Python object is alive as long as it can be reached and is never used or released after the interpreter ends or without its lock, single-threaded or with any number of workers.",
 ["programs", "schedules", "values"],
 "every program, schedule, type and value",
 "No test builds the Python target.",
 ["python/lib/python_port.c", "python/lib/python_action.c", "python/lib/pythontarget.c", "python/lib/python_tag.c", "python/lib/python_time.c", "python/lib/python_capsule_extension.c", "python/lib/modal_models/impl.c"],
 [("ports", "python/lib/python_port.c py_port_set, py_port_capsule_get_item, py_port_iter_next, convert_C_port_to_py"), ("actions", "python/lib/python_action.c, pythontarget.c py_schedule, convert_C_action_to_py"), ("lifetime", "python/lib/pythontarget.c python_count_decrement, destroy_action_capsule")],
 ["Python reactions"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
