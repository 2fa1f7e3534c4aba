import json
P=[]
def p(id,title,st,over,qt,why,files,mech,obs,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[obs]}

    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
S="schedules";F="fault_sequences";I="inputs";C="configurations";H="histories";G="programs"
p("P01","A fence makes every earlier one-sided update of the caller visible at the target",
 "When a process returns from a fence on a target (or on all targets), every put, accumulate and swap/add it issued before, of any shape, blocking or non-blocking, through any allocation or group, has taken full effect in the target's memory exactly once. This includes targets that do not take part in some live allocation: fencing any valid process is always legal and only waits for the caller's own operations.",
 [S,F,C,G],"for every set of operations issued before the fence, every interleaving and delivery delay or reordering of them, every transfer-method configuration and every mix of world and group allocations",
 "The tests run on one shared-memory node where data has nearly always landed before the fence is called, so a missing or partial flush is invisible.",
 ["src/onesided.c","src/gmr.c","src/internals.c"],[("fence and all-fence walk every allocation","src/onesided.c PARMCI_Fence, PARMCI_AllFence"),("window flush","src/gmr.c gmr_flush, gmr_flushall")],
 "target memory at the instant the fence returns on the origin","list of live allocations; operations in flight")
p("P02","After a barrier every process sees every update issued before it by anybody",
 "When the global barrier returns on a process, all one-sided updates that any process issued before entering that barrier are complete and visible to every process, both by one-sided reads and by direct loads of its own part of an allocation. No process leaves before all have entered.",
 [S,F,C,G],"for every communication pattern before the barrier, every arrival order, stall and message delay",
 "A barrier that omits the flush or memory synchronisation is correct on every run where the transport is eager; only adversarial delays expose it.",
 ["src/onesided.c","src/message.c","src/gmr.c"],[("fence everything, then synchronise processes and windows","src/onesided.c PARMCI_Barrier"),("message barrier","src/message.c parmci_msg_barrier")],
 "every process's memory when its barrier call returns")
p("P03","Puts and gets move exactly the described bytes, whatever the transfer method",
 "A contiguous, strided, vector or single-value put or get copies exactly the described source bytes to the described destination bytes and touches no other byte of any memory on any process. Every such call returns zero. The result is the same for every transfer method, batching limit, chunk size and window type that can be configured.",
 [I,C,S,F],"for every legal shape (stride levels, strides, counts, segment lists, overlap with holes, several allocations), target including self, configuration and delivery order",
 "Tests use a few fixed shapes in a few configurations and compare with themselves; they never check that surrounding bytes survive or that shapes outside the sampled ones agree across methods.",
 ["src/onesided.c","src/strided.c","src/strided_nb.c","src/vector.c","src/vector_nb.c","src/value_ops.c","src/gmr.c"],
 [("strided to datatype and strided to vector translation","src/strided.c ARMCII_Strided_to_dtype, ARMCII_Strided_to_iov"),("vector dispatch","src/vector.c ARMCII_Iov_op_dispatch"),("address to window displacement","src/gmr.c gmr_put_typed, gmr_get_typed")],
 "all simulated memory compared with a byte-exact reference model after synchronisation")
p("P04","Accumulates are applied exactly once, element-atomically, and none is lost",
 "Concurrent accumulates of any supported element type, scale factor and shape from any number of processes to the same locations leave each element equal to its initial value plus the sum of all scaled contributions. This holds with every transfer method and while other locations are being written.",
 [S,F,C,I],"for every number of concurrent contributors, overlap pattern, type, scale, shape and interleaving of delivery",
 "Lost updates need two deliveries to interleave at one element; the tests' few accumulates on one node practically never do.",
 ["src/onesided.c","src/buffer.c","src/vector.c","src/strided.c","src/gmr.c"],[("scaling into a private copy","src/buffer.c ARMCII_Buf_acc_scale"),("atomic accumulate on the window","src/gmr.c gmr_accumulate_typed")],
 "target elements after synchronisation against a sum-conserving model")
p("P05","Read-modify-write operations on one location are linearizable",
 "Fetch-and-add and swap, in int and long form, on any location from any processes behave as if executed one at a time in an order consistent with real time, each returning the value left by its predecessor. In the configurations that promise remote completion the new value is also visible to plain reads when the operation returns.",
 [S,F,C,H],"for every history of concurrent operations on shared counters, every delivery interleaving and every setting of the request-based and flush options",
 "Atomicity violations depend on the interleaving of two remote updates; tests only check a final counter value on one node.",
 ["src/rmw.c","src/gmr.c"],[("fetch-and-op / request-based read-modify-write","src/rmw.c PARMCI_Rmw, src/gmr.c gmr_fetch_and_op")],
 "recorded invoke/return history checked for linearizability; memory at return")
p("P06","A mutex is held by at most one process at a time",
 "Between the return of lock and the call of unlock on one mutex no other process is inside lock-protected code for that same mutex, for every mutex hosted by any process and for mutex sets over groups. Different mutexes never interfere with one another.",
 [S,F,H],"for every contention pattern, number of mutexes and hosts, arrival order, and delay of the hand-off messages and queue updates",
 "The queueing algorithm fails only if two requests overlap at specific points of the remote queue update.",
 ["src/mutex.c","src/mutex_hdl_queue.c"],[("queue mutex: mark own byte, read the others, wait for hand-off","src/mutex_hdl_queue.c ARMCIX_Lock_hdl"),("hand-off to the next waiter","src/mutex_hdl_queue.c ARMCIX_Unlock_hdl")],
 "critical-section intervals in the recorded history")
p("P07","Every waiting lock request is eventually granted, with bounded bypass",
 "If every holder eventually unlocks, every lock call returns: no hand-off is lost, duplicated, or delivered to the wrong mutex or process, and a waiter is overtaken by each other process a bounded number of times. This holds when one process waits while several mutexes hosted by several processes are being handed around.",
 [S,F,H],"for every contention pattern and order of lock, unlock and message delivery, once injected stalls end",
 "A lost or misdirected hand-off shows up as a rare hang that depends on one interleaving.",
 ["src/mutex_hdl_queue.c"],[("hand-off message with one tag per mutex","src/mutex_hdl_queue.c ARMCIX_Lock_hdl, ARMCIX_Unlock_hdl"),("waiter scan order","src/mutex_hdl_queue.c ARMCIX_Unlock_hdl")],
 "deadlock and step-bound detection; grant order per mutex")
p("P08","Completion of a non-blocking operation means its buffers are done",
 "After waiting for a handle (single or aggregated), for one process or for all, or after a successful test, data of every covered get is in place and the source buffer of every covered put or accumulate may be overwritten without affecting the transferred data. Until then the library itself keeps everything the transfer still needs alive and unchanged.",
 [S,F,C,G],"for every mix of operation kinds, shapes, handles and aggregation, every completion call and every delay between issue and actual transfer",
 "On one node the transport copies data at issue time, so premature completion or a temporary freed too early goes unnoticed.",
 ["src/onesided_nb.c","src/strided_nb.c","src/vector_nb.c","src/gmr.c","src/buffer.c"],[("per-handle request tracking","src/gmr.c gmr_handle_add_request, gmr_wait"),("wait, test, wait-proc, wait-all","src/onesided_nb.c PARMCI_Wait, PARMCI_Test, PARMCI_WaitProc, PARMCI_WaitAll")],
 "liveness and contents of every origin buffer at the moment the simulated transport reads or writes it")
p("P09","A blocking operation returns with its local side finished",
 "When a blocking put or accumulate of any shape returns, the caller may overwrite or release its source at once without changing what arrives; when a blocking get or value-get returns, the requested data, as current at some instant during the call, is in the destination.",
 [S,F,C],"for every shape, method, configuration and delivery delay",
 "The transport used by the tests copies eagerly; a missing local flush needs a delayed transfer to show.",
 ["src/onesided.c","src/strided.c","src/vector.c","src/value_ops.c","src/gmr.c"],[("local flush after put/accumulate, flush after get","src/onesided.c PARMCI_Put, PARMCI_Get, PARMCI_Acc")],
 "source buffers are scribbled or freed right after return; destinations are checked right after return")
p("P10","Polling a handle terminates and never lies",
 "Repeatedly testing a handle reports completion within a bounded number of polls once the transport delivers, for every kind of operation a handle can carry, including ones that finished immediately, empty ones and an unused handle. Testing never reports completion earlier than the wait call could return.",
 [S,F,C],"for every kind of handle state and every number of spurious not-yet answers from the transport",
 "Tests call test on one kind of handle only and the transport completes at once.",
 ["src/onesided_nb.c","src/gmr.c"],[("handle test","src/onesided_nb.c PARMCI_Test")],
 "bounded-poll liveness in the simulator")
p("P11","A flag written by put-with-flag never becomes visible before its data",
 "If a process observes the flag value of a contiguous or strided put-with-flag, all the data of that put is already visible at the target. Like every other successful transfer the call returns zero.",
 [S,F,C],"for every shape and configuration and every reordering of the data and flag transfers",
 "Reordering of data and flag does not occur on a single shared-memory node.",
 ["src/onesided.c","src/strided.c"],[("data, fence, then flag","src/onesided.c PARMCI_Put_flag, src/strided.c PARMCI_PutS_flag")],
 "target polls the flag between any two transport steps")
p("P12","One process's operations on one location are observed in program order",
 "In the configurations documented to give location consistency (every local flush promoted to a remote flush), a process's blocking operations on the same remote location take effect in the order issued, so a read returns its own last write and a later write is never overwritten by an earlier one. Overlapping strided, vector and contiguous operations obey this too.",
 [S,F,C,G],"for every sequence of overlapping operations of one process and every reordering by the transport, under the ordering configurations",
 "The transport of the tests is in-order, so any configuration looks location-consistent.",
 ["src/onesided.c","src/gmr.c","src/init_finalize.c"],[("promotion of local flush to remote flush","src/gmr.c gmr_flush"),("window ordering information","src/gmr.c gmr_create")],
 "values read and final memory against the program-order model")
p("P13","Allocations are disjoint, addressable everywhere and released exactly once",
 "Every participant of an allocation gets the same table of base addresses, each live region is disjoint from all others and fully addressable from its first to its last byte, and zero-size shares are null and harmless. Freeing a region releases it exactly once on every process and leaves every other live region usable, even when addresses are reused or regions are adjacent.",
 [G,S,F,C],"for every sequence of allocations and frees with any sizes (zero included), groups, address reuse and adjacency, and interleaving",
 "Tests allocate a few equal-size blocks; adjacency, address reuse and mixed zero shares depend on the allocator and the order of frees.",
 ["src/gmr.c","src/malloc.c"],[("allocation and address table","src/gmr.c gmr_create"),("free by any process's address","src/malloc.c PARMCI_Free, src/gmr.c gmr_destroy"),("lookup","src/gmr.c gmr_lookup")],
 "window and memory accounting of the simulated transport; reference model of regions")
p("P14","Groups contain exactly the requested processes in order, however they are built",
 "A group built from a list, by splitting or by duplicating has exactly the requested members, ranks in list order, and rank translation to absolute ids and back is the identity on members; collective and non-collective construction give the same group. Creation and release involve only the processes they must, and operations on group allocations and group collectives reach exactly the members.",
 [G,S,F,C],"for every member list, nesting, concurrent creation of disjoint groups, arrival order and construction option",
 "Tests use one split pattern in the default construction mode; other modes and nested, concurrent creations are never run.",
 ["src/groups.c","src/init_finalize.c"],[("collective and recursive pairwise construction","src/groups.c ARMCI_Group_create_child"),("split and dup","src/groups.c ARMCIX_Group_split, ARMCIX_Group_dup"),("translation cache","src/groups.c ARMCII_Group_init_from_comm, ARMCI_Absolute_id")],
 "membership and rank tables on every process; matching of the simulated collectives")
p("P15","Global operations give the mathematically defined result on every participant",
 "Sum, product, minimum, maximum, absolute minimum and maximum, logical and bitwise operations over all processes or a group, element selection by smallest or largest key, and broadcasts deliver on every participant the result defined by all contributions, for every element type and length, wherever the buffers live. The result does not depend on arrival order, reduction tree or how the transport segments the data.",
 [I,S,F,C],"for every operation, type, length, contribution pattern, reduction order, association and segmentation the transport may choose, and both buffer-sharing modes",
 "Reduction shape and segmentation are chosen by the MPI library by size and process count; tests see one choice.",
 ["src/message.c","src/message_gop.c"],[("operation mapping and custom reductions","src/message_gop.c armci_msg_group_gop_scope, ARMCII_Absmin_op"),("selection by key","src/message.c armci_msg_sel_scope")],
 "every participant's buffer against an order-independent model")
p("P16","Messages arrive intact, in order, with the true length, and nothing else changes",
 "A received message delivers exactly the bytes one matching send supplied, in sending order per sender and tag, reports the true length and the true sender, and leaves the rest of the receive buffer unchanged. Receive-from-any accepts every sender eventually. The binary tree offered for message exchanges is one tree over all processes, seen consistently by each, so that values sent up and down along it reach everybody.",
 [S,F,I,C],"for every interleaving of senders, tags, lengths, buffer locations (private or global memory) and delivery delays",
 "Tests do not check the buffer tail, short messages or several concurrent senders.",
 ["src/message.c"],[("send, receive, receive-any","src/message.c armci_msg_snd, armci_msg_rcv, armci_msg_rcvany")],
 "receive buffers and lengths against the multiset of sends")
p("P17","Initialisation and finalisation nest, clean up everything, and can be repeated",
 "The library stays usable until as many finalise calls as initialise calls were made, then releases every remaining allocation and every group, operation and helper thread it created, leaving the message-passing layer with no leaked object and usable by the program. It works on any sub-communicator, several times in a row, without touching processes outside it.",
 [G,S,F,C],"for every sequence of nested initialise/finalise calls, leftover allocations, sub-communicator and thread option",
 "Tests initialise and finalise once on the world communicator and never look at leaked objects.",
 ["src/init_finalize.c","src/gmr.c","src/groups.c"],[("reference count, setup and teardown","src/init_finalize.c PARMCI_Init_thread_comm, PARMCI_Finalize"),("destroy leftover allocations","src/gmr.c gmr_destroy_all")],
 "object accounting of the simulated message-passing layer")
p("P18","With buffer guarding on, local buffers inside global memory are safe",
 "When the shared-buffer guard is set to copy, a one-sided or message operation whose local buffer lies in globally accessible memory has the same outcome as with a private buffer, even while other processes concurrently access neighbouring or the same global locations in non-conflicting ways. Bytes outside the described local data are never modified.",
 [I,S,F,C,G],"for every operation kind, shape and location of local buffers relative to allocations, with concurrent remote traffic to the rest of those allocations",
 "Tests run without the guard and do not create concurrent traffic next to the local buffer.",
 ["src/buffer.c","src/onesided.c","src/strided.c","src/vector.c","src/message.c"],[("copy in and copy out of shared buffers","src/buffer.c ARMCII_Buf_prepare_read_vec, ARMCII_Buf_finish_write_vec")],
 "all memory against the reference model")
p("P19","Accesses outside live global memory stop the program before touching anything",
 "A one-sided operation whose remote address is not in a live allocation of the target, or whose extent passes the end of the target's share, terminates the program with an error instead of reading or writing any remote byte; overlapping or mixed-allocation vectors are executed correctly rather than corrupted.",
 [I,C,S],"for every operation kind, shape, method and offset near or beyond the boundaries of live and freed regions",
 "Tests contain only legal accesses.",
 ["src/gmr.c","src/rmw.c","src/vector.c","src/strided.c"],[("address lookup and extent checks","src/gmr.c gmr_lookup, gmr_put_typed, gmr_get_typed, gmr_accumulate_typed, gmr_fetch_and_op"),("same-allocation and overlap detection","src/vector.c ARMCII_Iov_check_same_allocation, ARMCII_Iov_check_overlap")],
 "no simulated transport operation may leave the target's window; run must end in an abort")
p("P20","Running out of memory stops the program with an error, never with corruption",
 "If an allocation of local memory, shared memory or a temporary fails at any point, the library either reports it to the caller as documented or stops the program with an error message; it never continues with an invalid address or with data silently lost.",
 [F,G,S],"for every single or repeated allocation failure at every allocation point of a run",
 "Allocation failures do not happen in tests.",
 ["src/gmr.c","src/malloc.c","src/buffer.c","src/vector.c","src/groups.c","src/mutex_hdl_queue.c"],[("result checks after each allocation","all allocation sites")],
 "run outcome and memory model under injected allocation failures")
p("P21","The progress thread changes nothing but progress, and stops when told",
 "With the asynchronous progress helper on, programs compute the same results and complete as without it, the helper makes no call into the message-passing layer after finalisation began tearing it down, and finalisation always joins it.",
 [S,F,C],"for every interleaving of the helper with the application and of its stop request with its poll loop",
 "The stop race and interleavings with the application thread are decided by the operating system in tests.",
 ["src/init_finalize.c","src/gmr.c"],[("helper loop and stop flag","src/init_finalize.c progress_function, PARMCI_Finalize")],
 "simulated thread schedule and calls made after teardown")
p("P22","Outstanding one-sided requests stay bounded without losing completion",
 "With message-passing libraries that abort when too many request-based one-sided operations are unfinished, no process ever exceeds that limit, however many non-blocking operations it issues through however many allocations, handles and threads. The throttling neither loses nor duplicates any operation's completion.",
 [S,F,G,C],"for every mix and number of request-based operations across allocations, handles and groups and every completion order",
 "The code is compiled only for another library version than the tests use.",
 ["src/gmr.c","src/rmw.c"],[("counting and flushing outstanding requests","src/gmr.c request accounting around request-based operations")],
 "request accounting of the simulated transport")
p("P23","The library only uses the message-passing layer legally",
 "Every communication call is made inside an access epoch on a valid window with in-range displacement and committed types, buffers are not released or modified while a transfer uses them, concurrent calls respect the thread level, and collective calls are made in the same order by all members. Nothing the library creates in the message-passing layer is released twice or used after release.",
 [S,F,G,C],"for every program using the library legally, every configuration and schedule",
 "The MPI library of the tests tolerates many illegal uses silently; whether they hurt depends on timing and on the MPI implementation.",
 ["src/gmr.c","src/mutex_hdl_queue.c","src/groups.c","src/message.c"],[("epochs opened at creation and closed at release","src/gmr.c gmr_create, gmr_destroy"),("mutex windows","src/mutex_hdl_queue.c")],
 "usage checker built into the simulated message-passing layer")
p("P24","Several threads of a process may communicate at once when asked for",
 "Initialised with full thread support, concurrent one-sided operations, completions, fences and read-modify-writes from several threads of one process keep every guarantee each thread would have alone. Lock and unlock from one thread, nested or not, never prevent other threads of the process from progressing. If the message-passing library does not provide the thread level asked for, initialisation stops the program instead of continuing without it.",
 [S,F,G],"for every interleaving of application threads at message-passing and mutex calls",
 "Thread interleavings at those points are not controlled by the tests, which are nearly all single-threaded.",
 ["src/onesided.c","src/onesided_nb.c","src/gmr.c","src/mutex.c","src/internals.c"],[("library state shared between threads","src/gmr.c gmr_list, src/mutex.c")],
 "results and deadlock detection with several simulated threads per process")
p("P25","Topology queries describe one domain per process consistently",
 "Domain counts, sizes, own domain and translation between local and global process ids are mutually consistent, and a process is on the same node as itself only.",
 [I,C],"for every process count and id",
 "Pure functions of the process id; tests sample few.",
 ["src/topology.c"],[("domain queries","src/topology.c armci_domain_nprocs, ARMCI_Same_node")],"return values")
p("P26","Local strided pack and unpack are inverse",
 "Packing a strided region into a buffer and unpacking it again restores exactly the strided bytes in order and touches nothing else.",
 [I],"for every stride description",
 "Tests sample a few shapes.",
 ["src/util.c","src/strided.c"],[("pack and unpack","src/strided.c armci_write_strided, armci_read_strided")],"buffers")
p("P27","A fatal error stops every process of the job, with its reason and code",
 "When the application reports a fatal error (ARMCI_Error, armci_msg_abort) or the library detects one, the call never returns, all processes of the job are stopped wherever they are and whatever group is the default, the exit code is the one given (nonzero when the library decides), and the message of ARMCI_Error is printed before.",
 [S,F,G,C],"for every state the other processes may be in (computing, blocked in a barrier, waiting for a mutex or a message), every group configuration and every subset the library was initialised over",
 "Tests never fail on purpose; stopping depends on what the other processes are doing at that moment.",
 ["src/util.c","src/message.c","src/internals.c","src/debug.c"],[("fatal errors of the application","src/util.c ARMCI_Error, src/message.c armci_msg_abort"),("fatal errors of the library","src/internals.c ARMCII_Error_impl, src/debug.c ARMCII_Assert_fail")],
 "who is stopped, exit code and output at the simulated abort")
p("P28","Direct access agrees with one-sided access in both window memory models",
 "With ARMCI_SHR_BUF_METHOD=COPY on an MPI library whose windows have the separate memory model: a process that accesses its share directly between ARMCI_Access_begin and ARMCI_Access_end, or after a barrier (ARMCI_Barrier, or armci_msg_barrier with ARMCI_MSG_BARRIER_SYNCS), sees every one-sided update ordered before it, and its stores are seen by every one-sided operation ordered after the end of the access or the barrier; the same holds for accesses the library makes on its own account (transfers of a process to itself, the zero fill of new allocations).",
 [S,C,I],"for every interleaving of direct accesses, one-sided operations of any process and synchronisations, every set of regions and groups, every transfer method",
 "The MPI libraries the tests run on report the unified model, where a missing synchronisation has no effect.",
 ["src/gmr.c","src/onesided.c","src/onesided_nb.c","src/util.c","src/message.c"],[("access epochs","src/onesided.c PARMCI_Access_begin, PARMCI_Access_end"),("synchronisation at barriers","src/util.c PARMCI_Barrier, ARMCII_Sync; src/message.c parmci_msg_barrier"),("self transfers","src/onesided.c PARMCI_Get, PARMCI_Put; src/onesided_nb.c"),("memory model of a window","src/gmr.c gmr_create, gmr_sync; src/util.c ARMCII_Is_win_unified")],
 "per-byte state of the two copies of every window, and the values seen")
import sys
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+'\n')
