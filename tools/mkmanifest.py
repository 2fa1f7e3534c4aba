#!/usr/bin/env python3
"""Write /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
COMMON = (" The deciding step is a seeded search: clean means no violation in the runs counted in the evidence file, not a proof. "
          "Trusted: the simulated MPI library (it permits what the MPI standard permits) and the reference model of legal programs.")
C = {
"P01": ("real library over a simulated MPI with reordered, torn, late and lazily delivered transfers; target memory compared with the model when a fence returns", "Checks every byte and accumulate element the caller updated before the fence, at the instant the fence returns, with foreign concurrent accumulates accounted for as subsets."),
"P02": ("seeded schedules with stalled processes and delayed transfers; whole memory of every process compared with the model when each process leaves the barrier", "Every known byte of every live allocation is compared at every barrier exit."),
"P03": ("generated contiguous, strided, vector and value transfers under every transfer method, limit and window type; gets and all memory checked byte for byte against the model", "Covers all four methods, batching limits, chunk sizes, three MPI vendor variants, guard bytes around buffers."),
"P04": ("concurrent accumulates of all types and scales with transfers torn at element boundaries only; exact-arithmetic model at every fence and barrier", "Values are integers in all types so every order of addition gives the same exact result."),
"P05": ("concurrent fetch-and-add and swap under adversarial schedules; the recorded history of each location goes through a linearizability search", "Histories of at most 14 operations per location and phase, searched exhaustively; the final memory value closes each history."),
"P06": ("critical sections of reads and delayed writes under adversarial schedules; ownership tracked at lock return and unlock call, shared counters checked", "Mutual exclusion is judged on the real lock and unlock calls of the library, over all hosts, sets and groups."),
"P07": ("contended mutex workloads with stalls and late messages; deadlock detection, step budget and bypass count at each grant", "Liveness is bounded progress: every lock returns within the step budget under fair scheduling; a queued waiter is overtaken at most twice by one other process."),
"P08": ("non-blocking transfers with sources captured and destinations written as late as legal; buffers are scribbled over when completion is reported", "The simulated MPI reads source buffers at a seeded moment up to completion, and checks that they are alive and unchanged."),
"P09": ("blocking transfers with late capture; the source is overwritten and freed right after the call returns, destinations are compared with the model", "Same transport adversary as P08."),
"P10": ("polling loops of test calls on every kind of handle with delayed delivery; bounded polls after delivery and no early completion", "A poll that completes is judged like a wait; a poll loop must end within the step budget."),
"P11": ("put-with-flag against a polling target under reordered and torn delivery; data checked the moment the flag is seen", "The reader polls with direct loads as well as through progress calls."),
"P12": ("overlapping blocking operations of one process on the same locations with promoted flushes and unordered delivery; reads judged in program order", "Only in configurations documented to give location consistency."),
"P13": ("random allocation and release histories with address reuse, adjacency, empty shares and groups; tables, bounds, liveness and leaks checked", "The tracked allocator and window table decide double release, leaks and use after release."),
"P14": ("random trees of groups built all ways with caching on or off; membership, ranks, translation and traffic compared with the model", "Non-collective creation is run with only the members calling it."),
"P15": ("global operations, selections and broadcasts over segmented and reordered collectives; results compared on every participant", "Reduction callbacks are called with arbitrary segment lengths and orders the MPI standard permits."),
"P16": ("messages of all lengths, tags and senders under delayed, rendezvous and reordered delivery; bytes, lengths, senders and untouched tails compared", "Receive-any is judged against the multiset of messages sent."),
"P17": ("nested and repeated initialise/finalise cycles over sub-communicators with everything else going on; leak and state checks after the last finalise", "All objects of the simulated MPI, heap blocks and threads are counted."),
"P18": ("operations with local buffers in global memory in copy mode while neighbours are accessed concurrently; outcome compared with the model", "Windows are private to their epochs: direct access to window memory outside what MPI allows is an error."),
"P19": ("programs ending in an access outside live global memory; they must stop before any byte moves", "All memory is checked at the stop; kinds: past the end, across the end, released, private, empty share."),
"P20": ("every allocation of a program is a fault point; one seeded allocation (or all from one on) fails and the program must stop cleanly or report", "Failing site is drawn uniformly from the allocations of a failure-free run of the same program."),
"P21": ("the helper thread as a fiber with seeded preemption, sleeps, thread-creation failure and weak transport progress; results, calls after finalise and joins checked", "Includes transports that progress only inside MPI calls, where one-sided traffic depends on the helper."),
"P22": ("floods of request-based operations against a transport that fails above a fixed number of unfinished requests; completions and data checked", "Open MPI 5 variant; limit 254 as for UCX."),
"P23": ("every MPI call of every simulated run goes through a usage checker (epochs, ranges, types, buffers, threads, collective order, object lifetime)", "The workload is the mixture of all others."),
"P24": ("two or three threads per process interleaved at MPI, mutex and (in part of the runs) memory accesses; all other oracles applied per thread", "Sequentially consistent interleavings only; weak-memory effects of real hardware are not simulated."),
"P27": ("runs that end in a fatal error of one process while the others compute, communicate or block; the abort must cover every process of the job, carry the code and follow the message", "What a launcher does with an abort is outside: judged is the call that reaches the message-passing library."),
"P28": ("windows that report the separate memory model, with a per-byte record of which copy is out of date; direct accesses, self transfers, one-sided traffic of others and synchronisations interleaved by the seeded scheduler", "The two copies are kept as one with marks for the bytes where they would differ; using the copy that is out of date is the violation, whatever its value. Zero local buffers in global memory in this profile."),
}
NA = {
"P25": "Domain queries are pure functions of the process rank and job size: no schedule, clock, I/O, fault or other party can influence them, so a simulation would be plain input generation.",
"P26": "Packing and unpacking a local strided region is a pure function of its arguments running to completion on one thread; nothing nondeterministic or failing takes part.",
}
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "checks": [], "not_applicable": [{"property": k, "reason": v} for k, v in NA.items()],
     "notes": "All checks compile /repo/src as it stands and link it with the simulator in /verif/sim; no hook is needed in /repo because every source of nondeterminism (MPI, pthreads, time, malloc, getenv, I/O) is reached through a linkable symbol. Replay a failure with: ./check.py replay FILE [--trace]."}
for k, (t, n) in C.items():
    m["checks"].append({"property": k, "quick_cmd": "./check.py %s --tier quick" % k, "thorough_cmd": "./check.py %s --tier thorough" % k, "evidence_file": "evidence/%s.json" % k,
                        "technique": T + t, "level": "fault_enumeration" if False else "exploration", "level_note": n + COMMON})
open(os.path.join(V, "MANIFEST.json"), "w").write(json.dumps(m, indent=1) + "\n")
