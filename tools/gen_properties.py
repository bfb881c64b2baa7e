#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Kept as a script so that the long texts stay readable."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=hook)))

RC="core/reactor_common.c"; RT="core/threaded/reactor_threaded.c"; RS="core/reactor.c"

# ---------------------------------------------------------------- runtime
p("R01","Every scheduled event occurs exactly once, at its tag, in tag order",
  "A program's execution visits tags in strictly increasing order, beginning at the start tag. Every timer firing and every accepted scheduled action event with a tag no later than the stop tag triggers its reactions exactly once, at exactly that tag (time and microstep), and nothing triggers at any other tag.",
  ["programs","schedules"],"all small reactor programs of the generator (timers, chains of actions, zero delays, several microsteps), with and without threads, under every explored thread interleaving",
  "The repository's tests never execute a reactor program: they only exercise containers, tag arithmetic and one worker-assignment test, so no event-queue behaviour is reached at all.",
  [RC,RT,RS,"core/utils/pqueue_tag.c","core/utils/pqueue_base.c"],
  [("event queue pop and next-event loop",RC+":_lf_pop_events"),("threaded tag advance",RT+":_lf_next_locked"),("timers",RC+":_lf_initialize_timer")],
  ["reaction bodies reading the logical tag"])
p("R02","Execution is deterministic: same reactions and inputs for every schedule",
  "For a program without physical actions, the set of (tag, reaction, input values and presence) executed is a function of the program alone. It does not depend on the number of workers, the scheduler chosen, or how threads interleave, and it is the one defined by the reactor model.",
  ["programs","schedules","configurations"],"small programs x {no threads, each threaded scheduler} x worker counts 1..3 x every interleaving within the deviation bound, compared with an independent reference interpreter",
  "No existing test runs a program; determinism is a statement over all interleavings and cannot be sampled.",
  [RT,RS,RC,"core/threaded/scheduler_NP.c","core/threaded/scheduler_GEDF_NP.c","core/threaded/scheduler_adaptive.c"],
  [("level-by-level release of ready reactions","core/threaded/scheduler_NP.c"),("triggering of downstream reactions",RC+":schedule_output_reactions")],
  ["reaction bodies"])
p("R03","Reactions respect precedence and mutual exclusion",
  "Within a tag, a reaction starts only after every reaction it depends on has finished: earlier reactions of the same reactor, and every reaction that may write a port it reads. Two reactions of one reactor never run at the same time, and the logical tag a reaction observes does not change while it runs.",
  ["programs","schedules"],"small programs with diamonds, chains and shared reactors, 2-3 workers, each scheduler, every interleaving within the deviation bound",
  "Overlap only appears under particular interleavings of worker threads; tests run no reaction.",
  ["core/threaded/scheduler_NP.c","core/threaded/scheduler_GEDF_NP.c","core/threaded/scheduler_adaptive.c",RT,"core/utils/pqueue.c"],
  [("levels and chain ids","core/threaded/scheduler_NP.c:lf_sched_get_ready_reaction"),("same-level condition","core/threaded/scheduler_GEDF_NP.c"),("reaction queue ordering","core/utils/pqueue.c")],
  ["start and end of every reaction body"])
p("R04","Ports and actions are present only at the tag where they were set",
  "A port or action is seen as present by a reaction exactly when it was set or scheduled for the current tag, and the value read is the last one written at that tag by a preceding reaction. At every other tag it is absent.",
  ["programs","schedules"],"all small programs of the generator, with and without threads",
  "Requires executing several consecutive tags of programs; tests run none.",
  [RC,"lib/schedule.c","core/lf_token.c"],
  [("reset of present flags at each new tag",RC+":_lf_start_time_step"),("set a port","core/reactor_common.c / lib: lf_set_present")],
  ["is_present flags and values read in reaction bodies"])
p("R05","Logical scheduling honours delay, minimum spacing and policy",
  "Scheduling a logical action at tag g with total delay d yields an event at time g+d, or at the next microstep when d is 0. When the action has a minimum spacing, accepted events of one action are never closer than it, and a too-early request is deferred, dropped or replaces the pending one exactly as its policy says; the return value tells whether an event was created and the payload of a rejected request is released.",
  ["histories","inputs"],"every sequence up to the stated depth of scheduling calls over a small domain of delays, minimum spacings and policies, interleaved with tag advances",
  "Tests never call the scheduling API; the interesting cases are collisions between several pending events.",
  ["lib/schedule.c",RC],
  [("schedule with policy","lib/schedule.c:lf_schedule_trigger"),("schedule at a tag",RC+":_lf_schedule_at_tag")],
  ["handles returned and tags at which the action triggers"])
p("R06","Events scheduled by other threads are never lost and wake the runtime",
  "A physical action scheduled from any thread at any moment before the program stops is delivered exactly once, with a tag later than every tag already processed and not earlier than the physical time of the call plus its delay, and events of one caller keep their order. A runtime waiting for a later event or with nothing to do wakes up to handle it without waiting for the later event.",
  ["schedules"],"every interleaving within the deviation bound of 1-2 external threads calling the scheduling API against workers that are computing, waiting for time, or idle under keepalive",
  "A lost wake-up or lost event needs one particular interleaving.",
  ["lib/schedule.c",RT,RS,"core/environment.c"],
  [("notification of new events",RT+":lf_notify_of_event"),("wait until",RT+":wait_until")],
  ["reaction bodies, virtual clock"])
p("R07","Logical time never runs ahead of physical time",
  "Unless fast mode is selected, no reaction at a tag with time t starts before the physical clock reaches t (waits shorter than the documented minimum sleep duration of 10 microseconds may be skipped), and when the runtime is not otherwise busy it starts as soon as the clock reaches t. In fast mode the runtime never waits for physical time to catch up.",
  ["programs","schedules"],"small timed programs under a virtual clock, all interleavings within the deviation bound, early wake-ups included",
  "Tests neither run programs nor control the clock.",
  [RT,RS,RC,"core/clock.c"],
  [("wait for physical time",RT+":wait_until")],["virtual clock at reaction start"])
p("R08","Every program that should stop stops, and shuts down exactly once",
  "When a timeout is reached, a stop is requested, or no events remain (without keepalive), execution stops at one well-defined tag: the timeout tag, the microstep after the request, or after the last event. Every shutdown reaction runs exactly once, at that tag, nothing runs after it, and all worker threads terminate (no deadlock and no hang).",
  ["programs","schedules"],"timeouts, stop requests from reactions and other threads, starvation and keepalive, each scheduler, 1-3 workers, every interleaving within the deviation bound; deadlock is detected as a state with no enabled thread",
  "Termination over all interleavings; tests have no running program.",
  [RT,RC,RS,"core/threaded/scheduler_sync_tag_advance.c"],
  [("stop tag",RC+":lf_set_stop_tag"),("should stop","core/threaded/scheduler_sync_tag_advance.c"),("request stop",RT+":lf_request_stop")],
  ["shutdown reactions, return of the runtime's entry point"])
p("R09","A missed deadline invokes the handler instead of the reaction",
  "If a reaction with a deadline d is invoked at logical time t when physical time exceeds t+d, its deadline handler runs in its place and the reaction body does not; otherwise the body runs and the handler does not. Outputs set by the handler are propagated like those of a reaction, and a reaction can query the same condition itself.",
  ["programs","schedules"],"programs whose reactions consume chosen amounts of virtual time around the deadline, including exact equality, each scheduler",
  "Depends on physical lag at invocation; tests run no reaction.",
  [RC,RT,RS],
  [("deadline check",RT+":_lf_worker_handle_deadline_violation_for_reaction / "+RS),("explicit query",RC+":lf_check_deadline")],["reaction bodies and handlers"])
p("R10","Payload memory lives exactly as long as it is used",
  "A payload carried by a port or action stays intact while any reaction of the current tag, pending event or explicit reference can reach it, and is released exactly once afterwards, through its own destructor when it has one. When execution ends, the runtime has released everything it allocated for payloads.",
  ["programs","histories","schedules"],"every sequence up to the stated depth of token operations (set, schedule, forward, copy, reference, writable copy), plus programs passing payloads under thread interleavings, with exact use-after-free, double-free and leak detection",
  "Lifetimes depend on the sequence of tags and of recycling; tests never touch payloads.",
  ["core/lf_token.c",RC,"lib/schedule.c"],
  [("reference counting and recycling","core/lf_token.c")],["allocator, destructors, payload contents"])
p("R11","A writable copy never disturbs other readers",
  "When a reaction asks for a mutable version of an input payload, it may modify the result freely and no reaction of another reactor, and no other holder of the payload (a pending event, another port or a later tag), observes the modification. A copy is made (through the type's copy constructor when it has one) whenever anyone else can still observe the payload.",
  ["histories","programs"],"all token operation sequences up to the stated depth and fan-outs 1-3",
  "Depends on fan-out and lifetime history; untested.",
  ["core/lf_token.c"],[("writable copy","core/lf_token.c:lf_writable_copy")],["payload contents"])
p("R12","Modes: only active modes react, and local time is kept as specified",
  "A mode switch requested at a tag takes effect after all reactions of that tag, from the next microstep on; only reactions, timers and actions of active modes (all enclosing modes active) execute. Re-entering by history continues the mode's timers and pending actions with the local delay they had left, re-entering by reset restarts timers and discards pending actions; startup runs on first entry, reset reactions on each reset entry, and shutdown reactions for every mode that was ever entered.",
  ["programs","histories"],"all sequences up to the stated depth of mode switches (history, reset, nested) over small modal programs with timers and actions, against a reference interpreter",
  "No test builds a modal program.",
  ["core/modal_models/modes.c",RC],
  [("processing of mode changes","core/modal_models/modes.c:_lf_process_mode_changes")],["reaction bodies"])
p("R13","Watchdogs fire exactly when they expire unrenewed",
  "A started watchdog runs its handler once, not before its start tag plus timeout, unless it was stopped or restarted before expiring; a stopped watchdog does not fire. The handler never runs concurrently with a reaction of its reactor, and the program terminates cleanly whatever the watchdog's state.",
  ["schedules"],"start, restart, stop and termination of 1-2 watchdogs against reactions under every interleaving within the deviation bound",
  "Needs a second thread and a clock; no test links the watchdog code.",
  ["core/threaded/watchdog.c"],[("watchdog thread","core/threaded/watchdog.c:watchdog_thread_main")],["handlers"])
p("R14","Iterating a multiport yields exactly its present channels in order",
  "Iterating over a multiport yields the index of every channel that is present at the current tag, each once and in ascending order, and then reports the end. The result does not depend on the order in which channels were set, on how many times each was set, or on whether the sparse representation is in use.",
  ["inputs","histories"],"every sequence of channel writes up to the stated length on widths up to 8, with sparse capacity 0..8 (overflow included), over consecutive tags",
  "Combinations of capacity overflow, repeated writes and reset; untested.",
  ["core/port.c",RC],[("sparse record","core/port.c"),("recording presence",RC+":lf_set_present")],["iterator results"])
p("R15","Each triggered reaction is handed to exactly one worker, once",
  "At every tag each triggered reaction is executed by exactly one worker, exactly once, and workers proceed to a later level or tag only when all reactions of the earlier one are done. No worker is left asleep while work it should do is available, for any number of workers and levels.",
  ["schedules","configurations"],"the scheduler interface driven directly by 2-3 worker threads over small level structures, each scheduler, all interleavings within the deviation bound with races promoted to scheduling points",
  "The one existing scheduler test only checks that workers exist; the property ranges over interleavings.",
  ["core/threaded/scheduler_NP.c","core/threaded/scheduler_GEDF_NP.c","core/threaded/scheduler_adaptive.c","core/threaded/scheduler_sync_tag_advance.c","core/utils/lf_semaphore.c"],
  [("work distribution and idle accounting","core/threaded/scheduler_NP.c")],["reaction hand-out"])
p("R16","Counting semaphores neither lose nor invent permits",
  "Acquiring returns only when a permit is available and takes exactly one, releasing n makes n available, and a thread blocked on a semaphore proceeds once permits suffice. Waiting for availability returns only when a permit exists and consumes none.",
  ["schedules"],"2-4 threads, up to 3 operations each, every interleaving",
  "No test for semaphores; a lost wake-up needs a particular interleaving.",
  ["core/utils/lf_semaphore.c"],[("condition-variable loop","core/utils/lf_semaphore.c")],["return of acquire"])
p("R17","Command-line options are honoured exactly or rejected",
  "Every documented option of a program (fast, timeout with each unit, keepalive, worker count, and the federation options) and of the coordinator, in any order and combination, sets precisely the setting it names, and every malformed or unknown option is reported as an error instead of being silently accepted or altering other settings.",
  ["inputs"],"all argument vectors up to the stated length over an alphabet of valid, malformed and boundary tokens, against a reference parser",
  "Untested; errors hide in combinations and order.",
  [RC,"core/federated/RTI/main.c"],[("argument processing",RC+":process_args"),("coordinator arguments","core/federated/RTI/main.c:process_args")],["resulting settings, exit"])
p("R18","Logical execution holds back at tag barriers",
  "While any barrier on tag advancement is in place for tag b, a runtime never processes a tag later than the barrier, and once every barrier is lifted it proceeds. Raising and lifting barriers concurrently never deadlocks the runtime or lets it overtake a barrier still in place.",
  ["schedules"],"1-2 threads raising and lifting barriers (present and future tags) against the running workers, every interleaving within the deviation bound",
  "Barrier races appear only under specific interleavings; untested.",
  [RT],[("barrier",RT+":_lf_increment_tag_barrier / _lf_wait_on_tag_barrier")],["tags seen by reactions"])

# ---------------------------------------------------------------- federation
p("F01","The coordinator never grants a tag that a message could still reach",
  "Whenever the coordinator tells a node it may advance to tag g, no node upstream of it (directly or transitively, through connections with any delays) can afterwards cause it to receive a message with tag g or earlier (earlier only, for a provisional grant), given what every node has reported and assuming nodes obey their own grants. Grants to one node never go backwards.",
  ["histories","configurations"],"explicit-state exploration of every reachable combination of reports on all topologies of up to 3-4 nodes with delays none, 0 and positive",
  "The existing test checks minimum delays on one fixed topology; safety ranges over all topologies and message histories.",
  ["core/federated/RTI/rti_common.c","core/federated/RTI/rti_remote.c","core/federated/RTI/rti_local.c"],
  [("grant computation","core/federated/RTI/rti_common.c:tag_advance_grant_if_safe"),("earliest future incoming message","core/federated/RTI/rti_common.c:earliest_future_incoming_message_tag")],["messages sent to nodes"])
p("F02","The coordinator never withholds a grant forever",
  "If every upstream node has reported enough for a node's requested tag to be safe, the coordinator sends the grant without waiting for further reports; as long as some node has work to do, some node holds or receives a grant that lets it proceed. A federation of obedient nodes therefore never deadlocks, zero-delay cycles included.",
  ["histories","configurations"],"same explicit-state space as F01, checking that no reachable quiescent state has a node waiting",
  "Liveness over all histories and topologies.",
  ["core/federated/RTI/rti_common.c","core/federated/RTI/rti_remote.c"],
  [("notify downstream","core/federated/RTI/rti_common.c:notify_downstream_advance_grant_if_safe")],["messages sent to nodes"])
p("F03","Delay analysis of the topology is exact",
  "For every topology, the minimum delay computed between any two nodes is the minimum over all paths of the sum of connection delays, unreachable pairs are reported as unconnected, and a node is treated as part of a zero-delay cycle exactly when it is on one.",
  ["configurations"],"all directed graphs on up to 4 nodes with edge delays from {none, no-delay, 0, positive}, against an independent shortest-path reference",
  "The existing test checks one hand-made topology.",
  ["core/federated/RTI/rti_common.c"],[("minimum delays","core/federated/RTI/rti_common.c:update_min_delays_upstream")],["minimum-delay matrix and cycle flags"])
p("F04","A centrally coordinated federation behaves like the unfederated program",
  "With centralized coordination, each federate processes every message at exactly the tag intended by the sender (its tag plus the connection's delay), in tag order and exactly once, and the resulting execution equals that of the same program run unfederated. No message ever arrives too late for its tag, whatever the network timing and thread interleaving.",
  ["schedules","programs"],"2-3 real federates and the real coordinator in one process over simulated sockets and clock; every interleaving within the deviation bound",
  "The repository has no federated test; tests cover only one helper of the coordinator.",
  ["core/federated/federate.c","core/federated/RTI/rti_remote.c","core/federated/RTI/rti_common.c",RT],
  [("tagged message handling","core/federated/federate.c:handle_tagged_message"),("forwarding and in-transit queue","core/federated/RTI/rti_remote.c:handle_timed_message"),("grants","core/federated/federate.c:handle_tag_advance_grant")],["reaction bodies of all federates"])
p("F05","A federated stop is agreed by all federates",
  "When one or more federates request a stop, at any moments and even concurrently, all federates still running stop at one and the same tag, which is no earlier than any requested or already reached tag, and every federate and the coordinator terminate.",
  ["schedules"],"1-2 stop requests (and departures) at every point of every history of the coordinator with 2-3 nodes over all topologies within bounds",
  "A protocol over concurrent parties; untested.",
  ["core/federated/federate.c","core/federated/RTI/rti_remote.c"],
  [("stop protocol","core/federated/RTI/rti_remote.c:handle_stop_request_message"),("federate side","core/federated/federate.c:handle_stop_granted_message")],["shutdown reactions, process exits"])
p("F06","A federation starts together, with the right members only",
  "All federates receive the same start time, not earlier than any federate's own proposal, and none executes before every federate has joined. A connection with a wrong federation identity, an out-of-range or already used federate identity is rejected and does not disturb the federation.",
  ["schedules","inputs"],"join orders, proposed clocks and all malformed join requests over a small alphabet, against the real coordinator",
  "Untested join protocol; identity checks range over inputs.",
  ["core/federated/RTI/rti_remote.c","core/federated/federate.c"],
  [("join","core/federated/RTI/rti_remote.c:receive_and_check_fed_id_message"),("start time","core/federated/RTI/rti_remote.c:handle_timestamp")],["start times, replies"])
p("F07","Messages cross the federation unaltered under any fragmentation",
  "The payload, length, destination and tag of every message between federates arrive exactly as sent, for every payload size including zero and sizes larger than any internal buffer, however the network splits or delays the byte stream, and messages on one connection are not mixed or reordered.",
  ["inputs","fault_sequences","schedules"],"payload sizes around every buffer boundary x every choice of short reads and writes within the deviation bound",
  "Untested; needs control of every read and write.",
  ["core/federated/RTI/rti_remote.c","core/federated/federate.c","core/federated/network/net_util.c"],
  [("chunked forwarding","core/federated/RTI/rti_remote.c:handle_timed_message"),("socket loops","core/federated/network/net_util.c:read_from_socket")],["payload received"])
p("F08","A leaving or failing federate does not block the others",
  "When a federate ends normally or its connection is lost at any moment after startup, every other federate is still granted every tag that no longer depends on it, and the remaining federates and the coordinator can all terminate. Messages that a normally ending federate sent before it left are still delivered.",
  ["fault_sequences","schedules"],"resignation and connection loss at every point of a short execution",
  "Fault points and interleavings; untested.",
  ["core/federated/RTI/rti_remote.c","core/federated/federate.c"],
  [("resign","core/federated/RTI/rti_remote.c:handle_federate_resign"),("failure","core/federated/RTI/rti_remote.c:handle_federate_failed")],["termination of all parties"])
p("F09","Only holders of the federation key join an authenticated federation",
  "With authentication enabled, a federate is admitted only after proving knowledge of the federation's identity with a response bound to the coordinator's fresh challenge, and the coordinator proves the same to the federate. A response that is altered, replayed, truncated or made for another identity is rejected.",
  ["inputs","fault_sequences"],"every single-byte alteration, truncation and replay of the handshake messages",
  "No test of the handshake.",
  ["core/federated/RTI/rti_remote.c","core/federated/federate.c"],
  [("HMAC handshake","core/federated/RTI/rti_remote.c:authenticate_federate")],["accept or reject"])
p("F10","Decentralized coordination flags every late message and never reorders",
  "With decentralized coordination, a message that arrives within the safe-to-process bounds is handled at its intended tag; a message that arrives too late for its tag is never dropped, is delivered at the earliest possible later tag, and is visibly flagged with its intended tag so that the receiver's violation handler runs.",
  ["schedules"],"two federates exchanging messages directly, arrival time relative to the receiver's tag enumerated, within the deviation bound",
  "Untested; depends on arrival relative to the receiver's progress.",
  ["core/federated/federate.c",RT],
  [("late message handling","core/federated/federate.c:handle_tagged_message")],["intended tag, violation handler"])
p("F11","Clock synchronization estimates the true offset",
  "With symmetric and constant network delay the initial synchronization makes a federate's physical time agree with the coordinator's, whatever the difference of their clocks, and each later accepted round moves it towards the coordinator's. Messages delayed by some amount disturb it by no more than their share in the average; a lost message costs the rounds it belongs to and not the synchronization of this or other federates. The physical time reported to reactions and threads of a federate never runs backwards, and the federation runs as it would with equal clocks.",
  ["inputs","fault_sequences","schedules"],"clock differences of either sign from 1 ns to seconds, constant and set during the execution; four latencies; every choice of delayed messages, lost datagrams or schedules within the deviation bound",
  "Untested; ranges over delays, message losses and clock differences.",
  ["core/federated/clock-sync.c","core/clock.c","core/federated/RTI/rti_remote.c"],
  [("PTP-like exchange","core/federated/clock-sync.c:handle_T4_clock_sync_message"),("coordinator's rounds","core/federated/RTI/rti_remote.c:clock_synchronization_thread")],["physical time read by reactions"])
p("F12","Wire formats and socket helpers are exact",
  "Encoding followed by decoding is the identity for every integer, tag and header, in little-endian byte order on the wire; a read or write helper transfers exactly the requested bytes or reports failure, whatever pattern of partial transfers, interruptions and errors the socket shows; a coordinator address is split into user, host and port exactly as its syntax says.",
  ["inputs","fault_sequences"],"boundary and bit-pattern values; every pattern of partial results, EINTR/EAGAIN, EOF and errors up to the stated length; all address strings over a small grammar",
  "Tests do not touch these helpers.",
  ["core/federated/network/net_util.c"],[("encoding and socket loops","core/federated/network/net_util.c")],["bytes and return values"])
p("F13","Port status: an input known absent is treated as absent, never prematurely",
  "In a centrally coordinated federation with zero-delay cycles, a reaction reading a network input runs at a tag only once that input is known to be present (with its value) or absent at that tag. A message for the tag is never missed because the input was assumed absent, and a federate never waits forever for an input whose status is known.",
  ["schedules","programs"],"two federates in a zero-delay cycle with provisional grants, every interleaving within the deviation bound",
  "Untested; depends on interleavings of grants, messages and workers.",
  ["core/federated/federate.c",RT],
  [("known status of input ports","core/federated/federate.c:update_last_known_status_on_input_port"),("stalling of levels",RT+":_lf_... / lf_stall_advance_level_federation")],["reaction bodies"])

# ---------------------------------------------------------------- utilities
p("U01","Tag and time arithmetic is exact and saturates",
  "Comparison is a total order; adding an interval to a time or tag is exact in range and saturates at the largest and smallest representable values instead of wrapping, which absorb further additions; delaying a tag by zero advances the microstep and by a positive interval resets it. A strict delay by a positive interval is the largest tag below the delayed one, and a negative interval means no delay.",
  ["inputs"],"all pairs over a set of boundary values of time and microstep, at every compiler optimisation level used for builds",
  "Existing tests check a handful of values in one debug build.",
  ["core/tag.c"],[("tag arithmetic","core/tag.c")],["return values"])
p("U02","Human-readable times are correct and fit their buffer",
  "Rendering a non-negative time as text gives the exact value with its units, and rendering any time with thousands separators gives exactly its decimal form (with a minus sign when negative); both return the number of characters written and never write beyond the documented buffer size.",
  ["inputs"],"all values built from boundary quantities of every unit and digit pattern",
  "Two values are printed in tests.",
  ["core/tag.c"],[("formatting","core/tag.c:lf_readable_time")],["text"])
p("U03","Priority queues always yield a minimum and keep every element",
  "After any sequence of insertions, removals, pops, searches and merges, popping yields elements in non-decreasing priority order, with every inserted and not removed element exactly once; searching by tag or by equality finds an element exactly when one is queued.",
  ["histories"],"every operation sequence up to the stated depth over a small set of priorities with duplicates, against a reference list",
  "Tests perform one fixed sequence.",
  ["core/utils/pqueue_base.c","core/utils/pqueue_tag.c","core/utils/pqueue.c"],[("binary heap","core/utils/pqueue_base.c")],["return values"])
p("U04","Containers behave like their abstract types",
  "The vector, hash set, hash map, double-ended queue and mixed-radix counter return after any sequence of operations exactly what an ideal sequence, set, map, deque and counter would, across growth, shrinking, rehashing, collisions and deletions, without touching memory outside their allocation.",
  ["histories"],"every operation sequence up to the stated depth from small initial capacities over colliding keys, against reference models, under memory checking",
  "Existing tests run random samples of some of these.",
  ["core/utils/vector.c","core/utils/hashset/hashset.c","core/utils/hashset/hashset_itr.c","include/core/utils/impl/hashmap.h","util/deque.c","core/mixed_radix.c"],[("containers","core/utils")],["return values"])
p("U05","Traces record every event, in order, and read back as written",
  "Every trace event recorded by any thread before shutdown appears exactly once in the trace file, with all its fields, in recording order per thread, and the registered object descriptions resolve its pointers. A traced program's trace agrees with its execution: each reaction invocation, deadline miss, user event and schedule call, attributed to its worker and tag. Tracing works with any number of workers and watchdogs. The converter to comma-separated values reports exactly the recorded events in the requested window of logical time, and the summary counts and times them correctly.",
  ["schedules","histories"],"recorder: 1-2 threads, managed or not, event counts around the buffer capacity, every interleaving within the deviation bound; whole programs in all runtime configurations; converter: all sequences of record patterns, event types, windows and block sizes",
  "Tracing is compiled but never run by tests.",
  ["trace/impl/src/trace_impl.c","core/tracepoint.c","core/reactor_common.c","util/tracing/trace_util.c","util/tracing/trace_to_csv.c"],[("buffering and flushing","trace/impl/src/trace_impl.c:lf_tracing_tracepoint"),("buffers for every thread","core/reactor_common.c:initialize_global"),("conversion","util/tracing/trace_to_csv.c:read_and_write_trace")],["trace file","converted file"])

if __name__=="__main__":
    here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here,"properties.jsonl"),"w") as f:
        for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
    print(len(P),"properties")
