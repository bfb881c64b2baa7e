RT = ("Stateless model checking of the compiled runtime (real sources, pthread and clock calls routed to a controlled scheduler): every schedule up to the stated "
      "number of preemptions and delays, with state caching on happens-before signatures, every free choice of the scenario; each execution is compared with a "
      "reference interpreter of the reactor model. Trusts the controlled scheduler (self-tested), sequential consistency between instrumented accesses, and the scenarios' bounds.")
T = "stateless model checking of the implementation (preemption-bounded schedule enumeration) against a reference interpreter"
TE = "explicit-state enumeration of all operation sequences on the implementation against a reference model"
SEQ = ("The real code is executed on every choice sequence up to the stated depth under address and undefined-behaviour sanitizers; histories reaching an already explored "
       "concrete state with no more operations left are cut. Trusts the reference model and the state encoding used for cutting.")
CO = "explicit-state model checking of the coordinator's real code in closed loop with nondeterministic nodes that obey their grants"
COX = ("The coordinator's handlers run unmodified in an address-space island whose whole memory is saved and restored per state; nodes are modelled after the federate's reporting rules and choose nondeterministically when to proceed, send, schedule, ask to stop and leave; "
       "all interleavings of message deliveries are explored, every topology of the family up to isomorphism. Trusts the node model; one message is handled at a time (the coordinator's handlers hold its mutex throughout).")
FED = ("The real coordinator and 2-3 real federates, written against the interface of generated code, run as processes of one controlled execution over simulated sockets, clocks and threads: every schedule up to the stated number of deviations "
       "(preemptions, delays, early or late network data) after startup, and with a permanently slow sender, constant latencies, spurious wake-ups and each scheduler. Trusts the controlled scheduler, the simulated sockets and the stand-in for the code generator.")
NOTES = {
    "U05": (T, "The recorder with small buffers and table and with the real ones; traced programs in all runtime configurations whose file, read by an independent reader, is compared with what the reactions observed; the converter's real main function on enumerated traces. Records made after shutdown, objects registered after the first flush and schedule events of timers are not judged. The converters to other formats are not covered. " + RT),
    "R01": (T, "Programs with timers, actions, ports and generated timer/delay combinations on all four runtime configurations. " + RT),
    "R02": (T, "Fixed programs and generated data-flow programs under every explored schedule with 1-4 workers and each scheduler. " + RT),
    "R03": (T, "Precedence, per-reactor exclusion and tag stability are asserted online at every reaction's begin and end. " + RT),
    "R04": (T, "Presence and value of every read input are compared with the reference. " + RT),
    "R05": (T, "All request sequences up to four over delays, spacings and policies; tags, return values and releases compared. " + RT),
    "R06": (T, "Calls of one or two threads at all relevant moments relative to timers, idleness and the end. " + RT),
    "R07": (T, "Virtual physical time; both early and late starts are failures; spurious wakeups and clock ticks explored. " + RT),
    "R08": (T, "Timeouts, starvation, requests from reactions and threads; hangs are detected as deadlock or livelock. " + RT),
    "R09": (T, "Physical lag generated around each deadline, all schedules. " + RT),
    "R10": (T, "Generated programs that set, forward, schedule (all delays, spacings and policies, beyond the end), copy and modify payloads, with and without destructors, sequential and parallel; every payload and token must be live when used and released at exit; plus writable copies around the limit of the recycling list under address sanitizer. " + RT),
    "R11": (T, "Same programs: contents seen by all other readers are compared with the reference for fan-outs 1-3 with every mix of readers, writers and forwarders. Exclusivity is judged between reactors; reactions of one reactor share its input. " + RT),
    "R12": (T, "Generated flat and nested modal programs (entry kinds, offsets, periods, delays), single-threaded and with two schedulers. " + RT),
    "R13": (T, "All start, restart and stop sequences at timer firings, handlers that restart, stop the program or another watchdog, expiry at the end of the program. " + RT),
    "R14": (TE, "All widths up to 8, capacities, repeated writes, unconnected channels and two multiports over three tags; and all schedules of 2-3 threads setting channels of one multiport. " + SEQ),
    "R15": (T, "Wide, deep and uneven level structures with 1-4 workers per scheduler. " + RT),
    "R16": (T, "All programs of acquire, release and wait for availability over 2-4 threads and up to 3 operations; blocking and permits judged against a counter after every schedule. " + RT),
    "R17": (TE, "Programs, federates and the coordinator (with and without authentication): all token vectors up to length 3 (4 thorough) over valid and malformed tokens, and every option with every boundary value combined with up to two further options, split over default and given options, from two initial settings; plus the effect on runs and refusal to run. Host names whose syntax the address grammar leaves open are not judged. " + SEQ),
    "R18": (T, "Barriers raised and lifted by threads at all moments relative to tag advancement, stop requests and message delivery. " + RT),
    "F01": (CO, "All connected topologies of 2-3 nodes with connections of no delay, 0, 1 and 2, 4 nodes with few connections, and two linked zero-delay cycles. Judged: a message that reaches a node at or before a tag it was allowed to enter, contradicting grants, altered or lost forwards. Messages sent by shutdown reactions at the agreed stop tag are a known finding. Grants between enclaves (not used by any build here) are not covered. " + COX),
    "F02": (CO, "Same space as F01. Judged: a requested tag that the reports justify is granted (provisionally in zero-delay cycles) as soon as they do, and no reachable state without moves has an unfinished node. " + COX),
    "F03": (TE, "All directed graphs on 2-3 nodes with four kinds of delay and any nodes unconnected, 4 nodes with three kinds; least delays and cycle flags against independently computed shortest paths, before and after invalidation. " + SEQ),
    "F04": (T, "21 federations (pipelines, fan-in and -out, cycles with delays, microsteps, physical actions and connections, slow reactions). Each execution is compared with the reference interpreter run on the unfederated program: same reactions at the same tags with the same inputs and states, same shutdown tag, all processes exit. " + FED),
    "F07": (T, "Payloads of 0, 1, 3, 235, 236, 257, 300, 1000 and 70000 bytes over logical and physical connections, with every read or write of the execution cut short or interrupted; length, bytes, port and tag compared. " + FED),
    "F10": (T, "23 federations under decentralized coordination with sufficient and insufficient safe-to-process offsets (STA and STAA), late messages meeting local events, coming in bursts, relayed, at the end and in cycles; plus 26 general ones. Judged: nothing is dropped or reordered; a message handled late is handled at the microstep after the tag the receiver was at; it is not late if it arrived within the offsets; intended tags and violation handlers exactly for late messages; the rest equals the reference interpreter fed with the observed arrival tags. " + FED),
    "F13": (T, "8 federations with zero-delay cycles of 2 and 3 federates, inputs present and absent, microsteps, mixed delays, fed from outside. Presence and value of each network input at each tag are compared with the reference; hangs are found as deadlock. " + FED),
    "F05": (CO, "One and two concurrent stop requests over topologies of 2-3 nodes, with failures and lost connections in between; one tag, told once, to everybody, not before any request or reply, final tags, termination. " + COX + " In addition 9 complete federations (requests from reactions, from threads, concurrent, near the timeout, in cycles). " + FED),
    "F06": (FED, "The processes begin in every listed order and distance in time, with all schedules of the whole startup to the bound; every start time is compared with the moment at which each federate came. Requests that must be rejected - every message type, every federation identity of a list against every boundary federate number, all truncations - before, while and after the federates join, at the coordinator and at federates waiting for peers; replies and the behaviour of the federation are judged. A connection that stays silent, and a federate with the right identity that fails while joining, are not covered. "),
    "F11": (FED, "Real coordinator and federates with clocks that differ by constants or are set during the execution, messages that take the same time each way except delayed ones, lost datagrams; the physical time that reactions read is compared with the coordinator's clock. Clock drift other than one step, duplicated and reordered datagrams and forged ones are not covered; schedules are explored with a clock that does not advance while threads are runnable. "),
    "F09": (FED, "A federate and a coordinator that know the key and depart from the handshake in one way: every byte altered in four ways, every truncation, responses for other identities, other challenges, the other role, more or less than the challenge, skipped steps; before, between and after the joining federates. HMAC-SHA256 itself is trusted; RAND_bytes is replaced by a generator that never repeats. The nonce in the coordinator's response is not itself protected by the protocol, so alterations of it are judged by the rejection that follows. "),
    "F08": (CO, "Failure messages and lost connections (writes failing or not) in every state of executions over topologies of 2-3 nodes; normal ending is part of every execution of F01 and F02. A provisionally granted node waiting for an input whose sender left is a known finding. Federations of the real processes in which one federate ends at any of its visible operations, between and inside messages, during startup of the others, execution and stop negotiation: the others terminate in an orderly way, handle exactly what was sent and behave as the program with the lost messages absent. Loss of the coordinator is outside the statement. " + COX),
    "F12": (TE, "Encoders and decoders over boundary lattices of every width and byte order; read, write and peek helpers under every pattern of partial transfers, interruptions, errors and end of stream (bounded count) with lock state and process exit observed; coordinator addresses: all strings to length 5 over a syntax alphabet and all combinations of boundary user, host and port parts. Host names between clearly valid and clearly invalid are not judged. " + SEQ),
    "U01": (TE, "All pairs (and triples for chains) over a lattice of boundary times and microsteps against 128-bit arithmetic, in sanitizer builds and at -O0/-O2/-O3 of two compilers. Values between the lattice points are not evaluated; microstep overflow of lf_delay_tag by zero is documented as wrapping and excluded. " + SEQ),
    "U02": (TE, "All combinations of boundary quantities of each unit, all group patterns of digits; parsed back exactly. " + SEQ),
    "U03": (TE, "Generic and tag queues, one or two queues, duplicates, own and queue-created elements. " + SEQ),
    "U04": (TE, "Vector, hash set with iterator, hash map, deque, mixed radix. " + SEQ),
}
PENDING = "not claimed yet: the check is under construction"
class _NA(dict):
    def __missing__(self, k): return PENDING
NA = _NA()
