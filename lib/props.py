"""The properties: what properties.jsonl, MANIFEST.json and the evidence files say about each of them."""
MP = "score/message_passing/"


def P(title, statement, over, text, why, files, mech, technique, rule, note, level="exploration", assumptions=()):
    return dict(title=title, statement=statement, over=over.split(), text=text, why=why, files=files.split(), mech=mech,
                technique=technique, rule=rule, note=note, level=level, assumptions=list(assumptions))


SAN = "address+undefined sanitizer and thread sanitizer builds of the real code"
PROPS = {
    "C01": P(
        "One-way messages and notifications arrive intact, in order, exactly once",
        "Every message whose sending was reported as successful on a connection that stays up reaches the peer's callback "
        "exactly once, byte for byte, in the order in which one sender issued it, and never mixed with another message. "
        "A sending call that reports an error has no effect at the peer, and after a connection ended the delivered messages "
        "are a prefix of the accepted ones.",
        "schedules inputs configurations",
        "all message contents and sizes up to the negotiated maximum, any number of concurrent senders on one or several "
        "connections, every combination of the client options (fully ordered, truly async, queue sizes), signals interrupting "
        "system calls, slow readers, and disconnects at any point",
        "the unit tests replace the operating system by mocks and send single short messages from one thread; interleavings "
        "of senders, short writes and a stream that is filled up do not occur in them",
        MP + "client_connection.cpp " + MP + "unix_domain/unix_domain_engine.cpp " + MP + "unix_domain/unix_domain_server.cpp",
        [("framing of messages on the stream", MP + "unix_domain/unix_domain_engine.cpp SendProtocolMessage/ReceiveProtocolMessage"),
         ("send queue and ordering", MP + "client_connection.cpp Send/ProcessSendQueueUnderLock"),
         ("notification queue of the server", MP + "unix_domain/unix_domain_server.cpp Notify/ProcessQueue")],
        "online monitor of self-describing messages under stress, with address/undefined/thread sanitizers",
        "a case is one accepted or refused message; distinct = different (options, sender thread, size class, outcome, "
        "interleaving shape) combinations the monitor saw",
        "explores many schedules of real sockets, not all; trusts the kernel's socket implementation and the stand-in for "
        "score_baselibs in /verif/shim"),
    "C02": P(
        "Each accepted request completes exactly once with the reply that belongs to it",
        "Every request that was accepted, blocking or with callback, is completed exactly once: with the bytes the server "
        "replied to this very request, or with an error. Replies are never handed to another request, even if many are "
        "outstanding, and when the connection ends, by either side, all outstanding requests are completed with an error; "
        "a blocking request never hangs and its buffers are not touched after it returned.",
        "schedules inputs configurations",
        "all interleavings of blocking and asynchronous requests, one-way messages and notifications from several threads "
        "and connections, all queue sizes and option combinations, servers that reply at once, later, from another thread, "
        "or never, and connections ended at any point",
        "tests use mocked engines and one request at a time; the queueing behind an outstanding reply and the race between "
        "reply, stop and a blocked caller are not reachable there",
        MP + "client_connection.cpp " + MP + "non_allocating_future/non_allocating_future.h " + MP + "unix_domain/unix_domain_server.cpp",
        [("pending request and send queue", MP + "client_connection.cpp SendWaitReply/SendWithCallback/ProcessReply"),
         ("completion on disconnect", MP + "client_connection.cpp SwitchToStopState")],
        "request/reply history monitor (exactly-once, own reply) under stress, with address/undefined/thread sanitizers",
        "a case is one request; distinct = different (options, kind of request, reply mode, outcome, interleaving shape) "
        "combinations the monitor saw",
        "explores many schedules, not all; a server that never replies is only observed until the connection is stopped"),
    "C03": P(
        "Connections follow their life cycle whoever starts, stops or destroys them",
        "A client connection reports the states Starting, Ready, Stopping, Stopped to its callback in this order per session, "
        "one at a time, ends in Stopped after every stop and can be restarted from there; a server reports connect and "
        "disconnect in pairs, serialised, and nothing after it stopped listening. Starting, stopping, restarting and "
        "destroying, also from inside callbacks and concurrently with traffic, neither blocks forever nor leaks descriptors, "
        "memory or queue slots.",
        "schedules histories configurations",
        "all histories of start, stop, restart, destroy, server rejection, server-side disconnect, server stop and restart "
        "over several clients and threads, including those from inside state, notify and reply callbacks",
        "the existing tests drive one connection through a scripted sequence against a mocked engine; concurrent stop, "
        "restart and disconnect are not explored",
        MP + "client_connection.cpp " + MP + "unix_domain/unix_domain_server.cpp " + MP + "unix_domain/unix_domain_engine.cpp",
        [("state machine of the client connection", MP + "client_connection.cpp ProcessStateChange/SwitchToStopState/DoRestart"),
         ("endpoint bookkeeping and cleanup", MP + "unix_domain/unix_domain_engine.cpp RegisterPosixEndpoint/ProcessCleanup")],
        "life-cycle trace monitor over random histories, with address/undefined/thread sanitizers",
        "a case is one callback, call or end-of-session check; distinct = different (sequence of states and causes of a "
        "session, options) the monitor saw",
        "explores many histories and schedules, not all; socket descriptors get fresh numbers during the run, so that the "
        "recorded descriptor-reuse finding cannot disturb it"),
    "C04": P(
        "Hostile peers, size limits and failing system calls stay contained",
        "A peer that sends malformed, truncated, oversized or unsolicited messages loses its own connection, after everything "
        "it had sent completely before was delivered unchanged, and nothing else is delivered from it; other connections keep "
        "working. Messages, replies and notifications up to the configured maximum pass, larger ones are refused with an error "
        "and without effect. A failing system call is reported or retried and costs at most the connection it concerns.",
        "inputs fault_sequences configurations",
        "all byte streams a peer may send, in all fragmentations, cut at any byte; all configured maxima and message sizes "
        "around them and around 64 KiB; an error of any socket call at any point",
        "tests use mocked sockets that return well-formed messages; no test sends garbage, and size limits are tried with one value",
        MP + "unix_domain/unix_domain_engine.cpp " + MP + "unix_domain/unix_domain_server.cpp " + MP + "client_connection.cpp",
        [("checks of the received header", MP + "unix_domain/unix_domain_engine.cpp ReceiveProtocolMessage"),
         ("dispatch of received messages", MP + "unix_domain/unix_domain_server.cpp ProcessInput, " + MP + "client_connection.cpp ProcessInputEvent"),
         ("limits of the senders", MP + "client_connection.cpp Send*, " + MP + "unix_domain/unix_domain_server.cpp Reply/Notify")],
        "differential oracle for byte streams from raw sockets, errno injection, with address/undefined/thread sanitizers",
        "a case is one hostile connection, one message at a limit or one call next to an injected fault; distinct = different "
        "stream shapes, (size, maximum, kind) triples and (call, errno) pairs",
        "explores many streams, not all; that a peer may stall a server in the middle of a message is a recorded finding",
        level="fault_enumeration"),
    "C05": P(
        "A future hands over its value exactly once and never hangs a waiter",
        "Whoever waits on a future is released once the value was set and sees exactly that value, whichever comes first, "
        "setting or waiting; nobody is released before. After a waiter returned, the setter no longer touches the future or "
        "anything that lives on the waiter's stack.",
        "schedules inputs",
        "all interleavings of the setting and the waiting threads, values of any type including void and ones with non-trivial "
        "move, many futures sharing one mutex and condition variable",
        "the tests set and wait in a fixed order in two threads; a lost wake-up or a late access needs a particular schedule",
        MP + "non_allocating_future/non_allocating_future.h",
        [("value and ready flag under the shared mutex", MP + "non_allocating_future/non_allocating_future.h")],
        "lost-wakeup, value and lifetime monitors under stress, with address/undefined/thread sanitizers",
        "a case is one future used once; distinct = different (value type, who came first, number of futures sharing, "
        "threads) combinations",
        "explores many schedules, not all"),
    "C06": P(
        "Timed commands run once, not early, in time order, and never after their cleanup",
        "A registered command runs exactly once, not before its time, in the order of the times and for equal times in the "
        "order of registration, and the queue reports the time of the earliest one left. Cleaning up an owner removes all and "
        "only the commands of that owner, releases what they captured, and none of them starts afterwards; commands may "
        "register or clean up others while they run.",
        "schedules histories inputs",
        "all histories of registrations, cleanups and processing from several threads and from inside commands, all times and owners",
        "the tests register a handful of entries in one thread; ties, re-registration from inside commands and concurrent "
        "cleanup are not covered",
        MP + "timed_command_queue.cpp " + MP + "timed_command_queue.h " + MP + "timed_command_queue_entry.h",
        [("ordered list of entries", MP + "timed_command_queue.cpp RegisterTimedEntry/ProcessQueue/CleanUpOwner")],
        "reference-model comparison over random histories, with address/undefined/thread sanitizers",
        "a case is one command, cleanup or processing step compared with the model; distinct = different (kind of step, "
        "queue length, tie, nesting) combinations",
        "explores many histories, not all"),
}
COM = "score/mw/com/impl/"
PROPS["C24"] = P(
    "Samples handed out plus samples available always equal the subscribed maximum",
    "However sample references are requested, taken, moved, assigned, passed between threads and dropped, the number in use "
    "plus the number available equals the configured maximum, a request never gets more than it asked for or than is left, "
    "every guard gives back exactly one sample exactly once, and everything is available again after the last one is gone. "
    "The same holds for slots allocated by a sender, whose tracker never disappears under its guards unnoticed.",
    "schedules histories",
    "all histories of requesting, taking, moving, self-assigning and dropping guards over several trackers, and all "
    "interleavings of several threads doing so on one tracker",
    "the tests run short single-threaded sequences; concurrent allocation and the moves between non-empty guards are not covered",
    COM + "sample_reference_tracker.cpp " + COM + "sample_reference_tracker.h " + COM + "sample_allocatee_tracker.cpp " + COM + "sample_allocatee_guard.cpp",
    [("available counter", COM + "sample_reference_tracker.cpp Allocate/Deallocate"),
     ("guards", COM + "sample_reference_tracker.cpp TrackerGuardFactory, " + COM + "sample_allocatee_guard.cpp")],
    "conservation monitor against a counting model, with address/undefined/thread sanitizers",
    "a case is one operation followed by a comparison with the model; distinct = different operation sequences and "
    "(maximum, threads, peak, refusals) combinations of the concurrent runs",
    "explores many histories and schedules, not all")
PROPS["C25"] = P(
    "Ownership flags, call slots, copied atomics and element views keep their values",
    "A set flag has exactly one owner whatever is moved; a method's call slot is claimed exactly as long as one pointer owns "
    "it, also across moves and conversions; copies of an atomic carry its value and what was written before it; a view shows "
    "exactly the elements of its map; address bounds have both ends or none; slot totals, accessor tags and signatures "
    "reflect exactly what was declared.",
    "histories inputs schedules",
    "all histories of creating, moving, self-assigning, converting and destroying these values, all numbers and tags, and "
    "concurrent publication through a copied atomic",
    "the tests check single operations on single values; self-moves, chains of conversions and memory ordering are not covered",
    COM + "flag_owner.h " + COM + "methods/method_signature_element_ptr.h " + COM + "util/copyable_atomic.h " + COM +
    "service_element_map_view.h " + COM + "field_tags_store.h " + COM + "bindings/lola/skeleton_event_properties.h "
    "score/memory/shared/memory_region_bounds.cpp",
    [("single ownership", COM + "flag_owner.h, " + COM + "methods/method_signature_element_ptr.h"),
     ("atomic copy", COM + "util/copyable_atomic.h"), ("slot totals", COM + "bindings/lola/skeleton_event_properties.h")],
    "model comparison over random histories, with address/undefined/thread sanitizers",
    "a case is one operation followed by a comparison of all values with the model; distinct = different operation sequences "
    "and value combinations",
    "explores many histories, not all; memory ordering is judged by the race detector on one pair of threads")

SHM = "score/memory/shared/"
PROPS["C07"] = P(
    "Shared-memory pointers mean the same object everywhere, never one outside it",
    "However offset pointers are copied, converted, moved, swapped, indexed and advanced, between a region, the stack and the "
    "heap, a pointer designates the same object through every mapping of its region, null stays null, comparisons and "
    "distances agree with those of plain pointers, and a pointer that carries the bounds of its region, or whose content was "
    "forged, is refused instead of being dereferenced outside of the region (with enough room for the whole object).",
    "inputs histories",
    "all histories of pointer operations over pointers placed inside and outside of a region that is mapped at two addresses, "
    "all offsets a hostile process may write into the region, and all integers for the arithmetic below it",
    "the tests use some fixed offsets of a single mapping; copies between different places, swaps and forged offsets near the "
    "ends of the address range are sampled at a few points only",
    SHM + "offset_ptr.h " + SHM + "offset_ptr_bounds_check.cpp " + SHM + "pointer_arithmetic_util.h " + SHM + "pointer_arithmetic_util.cpp",
    [("offset and bounds of a pointer", SHM + "offset_ptr.h"), ("bounds check", SHM + "offset_ptr_bounds_check.cpp DoesOffsetPtrInSharedMemoryPassBoundsChecks")],
    "differential monitor against plain pointers over two mappings of one region, with address/undefined/thread sanitizers",
    "a case is one operation whose result was compared with the plain-pointer model; distinct = different (operation, places, "
    "outcome) combinations",
    "explores random histories; regions are made by hand (memfd), so that both mappings lie in one process")
PROPS["C08"] = P(
    "Shared memory is given out once, aligned, in bounds; computed sizes suffice",
    "Concurrent allocations from threads and processes on one region are aligned, inside the region, pairwise disjoint and "
    "accounted for; a region without enough room ends the process instead of handing out foreign memory. The containers on "
    "top behave like their std counterparts, also for a process that maps the region elsewhere. A dry run computes exactly "
    "the memory that the same construction uses, and the shared memory computed for any offered service (by simulation or "
    "analysis) suffices for it, with every sample slot aligned and disjoint from the others.",
    "schedules inputs configurations",
    "all interleavings of allocations by threads of several processes, all sizes and alignments, all histories of container "
    "operations, and all combinations of sample types (size, alignment), numbers of elements, slots and subscribers, both "
    "size calculation modes and both safety levels",
    "the tests allocate from one thread and check computed sizes for single element types with ordinary alignment",
    SHM + "shared_memory_resource.cpp " + SHM + "new_delete_delegate_resource.cpp " + SHM + "polymorphic_offset_ptr_allocator.h " + SHM + "vector.h " + SHM + "map.h " + SHM + "string.h " + COM + "bindings/lola/skeleton_memory_manager.cpp " + COM + "bindings/lola/service_data_storage.cpp",
    [("lock-free bump allocation", SHM + "shared_memory_resource.cpp do_allocate_with_indirector"),
     ("size by simulation", SHM + "new_delete_delegate_resource.cpp do_allocate"),
     ("size by analysis", COM + "bindings/lola/service_data_storage.cpp CalculateServiceDataStorageShmSize")],
    "disjointness and accounting monitor over recorded allocations of several processes, model comparison, with sanitizers",
    "a case is one allocation, container step, dry run or offered service that was judged; distinct = different interleavings, "
    "container contents seen by the other process and service descriptions",
    "explores many schedules and shapes, not all; contention is kept below the number of retries the allocator makes")

PROPS["C09"] = P(
    "Every address is attributed to the shared memory region it lies in, lock-free",
    "While regions are mapped and unmapped, every concurrent lookup of an address gives the region (or none) that was right at "
    "some time during the lookup, and never goes back in time; overlapping regions are refused without a trace. A resource is "
    "found by its identifier and its addresses exactly from its registration to its removal, whatever other users of the "
    "registry do, and allocations by proxy always reach the resource the proxy stands for.",
    "schedules histories",
    "all interleavings of a writer and any number of lock-free readers, all histories of inserting, removing and clearing "
    "regions and resources, and all histories of creating, opening, failing to open, removing and dropping real objects",
    "the tests use one thread or force single interleavings with mocked atomics; a failing open beside a user of the same name "
    "does not occur in them",
    SHM + "memory_region_map.cpp " + SHM + "memory_region_map.h " + SHM + "memory_resource_registry.cpp " + SHM + "memory_resource_proxy.cpp " + SHM + "shared_memory_resource.cpp",
    [("versions of the map and their reference counts", SHM + "memory_region_map.cpp AcquireLatestRegionVersionForRead/AcquireRegionVersionForOverwrite"),
     ("registration", SHM + "memory_resource_registry.cpp insert_resource/remove_resource")],
    "linearizability monitor over the version history, model comparison, with address/undefined/thread sanitizers",
    "a case is one lookup judged against the versions that were current during it, or one step compared with the model; "
    "distinct = different sequences of (versions in flight, version matched) per reader",
    "explores many schedules with injected delays around the atomic operations, not all")

PROPS["C10"] = P(
    "A shared memory region is created once, entered complete, and leaves no trace",
    "Of any number of processes and threads which create, open or create-or-open the same path at the same time, exactly one "
    "initialises the region, everybody who gets it sees it completely initialised, create-or-open always gets it, and one "
    "process never has two resources for a path. The region is accessible to exactly whom its creator and the opener's list "
    "of allowed providers name. A refused, failing or crashed call harms no existing region, leaves no lock file, descriptor or "
    "endless wait, and after RemoveStaleArtefacts the path works again.",
    "schedules crash_points inputs histories",
    "all interleavings of calls in several processes and threads, a crash or a failing OS call at every step, all permissions, "
    "umasks, owners and lists, all call sequences over several paths",
    "the tests mock the OS, have one process, and never crash; races between processes and residue of failures do not occur",
    SHM + "shared_memory_factory_impl.cpp " + SHM + "shared_memory_resource.cpp " + SHM + "lock_file.cpp",
    [("lock file around creating and opening", SHM + "shared_memory_resource.cpp CreateImpl/OpenImpl/acquireLockFile"),
     ("one resource per path, allowed providers", SHM + "shared_memory_factory_impl.cpp Open/Create/CreateOrOpen")],
    "race workload over real processes, crash and errno injection at every OS call, model comparison, with address/undefined/thread sanitizers",
    "a case is one region obtained or refused and judged; distinct = different (calls, order in which the processes reached the "
    "file system) of races, (call, crash or fault point, error) and call sequences",
    "access lists are recorded by a stand-in instead of being enforced by the kernel; shared memory objects are files of a scratch directory; "
    "typed memory is not available")
PROPS["C11"] = P(
    "File locks exclude each other, end with their owner; one owner per lock file",
    "An exclusive owner of a lock file's lock is alone, shared owners are only with each other, trying succeeds exactly if that "
    "allows it, a lock ends with unlock, with its guard, with its file object and with its process, and waiting survives "
    "signals. A lock file is created by at most one Create, opened only if it exists, and removed exactly when the one object "
    "which owns it goes away, however it was moved; failures leave no file or descriptor.",
    "schedules histories crash_points",
    "all interleavings of owners in processes and threads, death of an owner at any time, signals at any time, all sequences of "
    "creating, opening, moving and dropping lock files with failing OS calls",
    "the tests mock the OS calls and check which are made; nothing ever contends",
    SHM + "flock " + SHM + "lock_file.cpp",
    [("locking", SHM + "flock/flock_mutex.cpp lock/try_lock/unlock"), ("ownership", SHM + "lock_file.cpp"),
     ("guard", SHM + "flock/flock_mutex_and_lock.h")],
    "exclusion monitor on a board shared by processes and threads, model comparison with fault injection, with address/undefined/thread sanitizers",
    "a case is one entry or exit of a locked region, or one step compared with the model; distinct = different orders of entries and operation sequences",
    "explores many schedules, not all")
LOLA = COM + "bindings/lola/"
PROPS["C12"] = P(
    "No event slot in use is overwritten; samples arrive unchanged and in order",
    "A provider never gets a slot to write that any consumer of either quality level references; it gets the oldest unused one "
    "whenever one exists, and what consumers collect is exactly the newest published samples they have not had, at most as many as asked "
    "and allowed, oldest first, unchanged for as long as they hold them. Each reference is given back exactly once, discarded "
    "samples are never seen, and no QM consumer, whatever it references or writes into the QM control data, disturbs ASIL-B. A "
    "provider dying at any point leaves slots behind which its successor can use for all consumers.",
    "schedules histories crash_points inputs",
    "all interleavings of a provider and consumers in threads and processes, all histories of allocating, publishing, discarding, "
    "collecting and releasing with any number of slots, death of the provider between any two steps, any content of the QM control data",
    "the tests run single-threaded steps with mocked atomics; races between allocation and referencing, memory ordering and states "
    "left by a crash do not occur",
    " ".join(LOLA + f for f in ("event_slot_status.cpp", "event_data_control_composite.cpp", "provider_event_data_control_local_view.cpp",
                                "consumer_event_data_control_local_view.cpp", "slot_collector.cpp", "slot_decrementer.cpp", "sample_ptr.h", "sample_allocatee_ptr.h")),
    [("allocation", LOLA + "provider_event_data_control_local_view.cpp AllocateNextSlot, " + LOLA + "event_data_control_composite.cpp AllocateNextMultiSlot"),
     ("referencing", LOLA + "consumer_event_data_control_local_view.cpp ReferenceNextEvent"),
     ("collecting", LOLA + "slot_collector.cpp"), ("slot word", LOLA + "event_slot_status.cpp")],
    "exact model comparison, payload and holder monitors over threads and processes with injected delays, provider kills, with "
    "address/undefined/thread sanitizers",
    "a case is one operation compared with the model or one publication under the monitors; distinct = different operation "
    "sequences, delivered time stamp sequences, and slot states left by a crash",
    "explores many schedules and crash points, not all; time stamps do not wrap (2^32 publications)")
PROPS["C15"] = P(
    "What a crashed consumer left behind is given back by its successor, exactly",
    "When a consumer process dies anywhere and is started again, creating its proxies withdraws each subscription and gives back "
    "each sample reference recorded for its application exactly once, and nothing else: reference counts, subscriber and sample "
    "counts are then exactly those of the consumers alive, whose own records are untouched. A process which died between "
    "operations can always be restarted; one which died inside a transaction is either restarted exactly or refused with "
    "kCouldNotRestartProxy, its log is never reused with contents, and a log has one owner at a time. The provider is told once "
    "per restart which process id is outdated.",
    "crash_points histories schedules",
    "death of a consumer process at any instruction, any number of proxies, events and application ids, any history before, other "
    "consumers and the provider running on, registrations racing in threads and processes",
    "the tests record transactions by hand in one process and roll back once; nothing dies, nothing runs beside it",
    " ".join(LOLA + f for f in ("transaction_log_local_view.cpp", "transaction_log_set.cpp", "transaction_log_slot.h", "transaction_log_rollback_executor.cpp",
                                "transaction_log_registration_guard.cpp", "rollback_synchronization.cpp")),
    [("transactions", LOLA + "transaction_log_local_view.cpp"), ("sets of logs", LOLA + "transaction_log_set.cpp RollbackProxyTransactions/AcquireNextAvailableSlot"),
     ("restart", LOLA + "transaction_log_rollback_executor.cpp"), ("log slot", LOLA + "transaction_log_slot.h")],
    "exact model of the logs; consumer processes ended between operations, at atomic operations and by signals, then a conservation "
    "check of all references and subscriptions, with address/undefined/thread sanitizers",
    "a case is one step compared with the model, one log claimed, or one conservation check; distinct = different step sequences and "
    "different points of death",
    "explores many crash points, not all; an application id belongs to one process at a time")
PROPS["C16"] = P(
    "A consumer application finds the process id it was registered with before",
    "Registering an application's process id returns the one registered for that application before, or the new one if there was "
    "none, and is refused exactly if all places are taken by other applications; no two applications ever share a place, however "
    "many register at once. An application which died while registering can register again and takes no second place. The word of "
    "an entry holds any status with any application id, and the rollback mutex of a service instance is one and created once per process.",
    "schedules histories crash_points inputs",
    "all application and process ids, all histories of registrations, registrations racing in threads and processes, death at any "
    "atomic operation of a registration",
    "the tests script single atomics; no registration ever races or dies",
    " ".join(LOLA + f for f in ("application_id_pid_mapping.cpp", "application_id_pid_mapping_entry.cpp", "rollback_synchronization.cpp")),
    [("registering", LOLA + "application_id_pid_mapping.cpp RegisterPid"), ("entry word", LOLA + "application_id_pid_mapping_entry.cpp"),
     ("mutexes", LOLA + "rollback_synchronization.cpp GetMutex")],
    "exact model, capacity conservation after races and deaths, with address/undefined/thread sanitizers",
    "a case is one registration or mutex compared with the model; distinct = entry words and registration histories",
    "explores many schedules, not all; an application id belongs to one process at a time")
PROPS["C14"] = P(
    "Subscriptions keep the limits of the event, and every subscriber its state",
    "A subscription is accepted exactly if its number of samples is realizable and neither the subscribers nor, if enforced, the "
    "samples exceed the limits of the event, however many subscribe at once; what is withdrawn is available again, and nothing else. "
    "A subscriber is subscribed while the provider is there, pending while it is away, and each change is reported exactly once and "
    "in order to its state change handler. While subscribed exactly the receive handler set last is registered with the present "
    "provider, and none once it was unset or the subscription withdrawn.",
    "inputs histories schedules",
    "all sample counts and limits, all histories of subscribing, unsubscribing, handlers set and unset and the provider coming and "
    "going, for several subscribers in threads and processes",
    "the tests walk through single transitions with one subscriber and small numbers; combinations of pending states with handlers, "
    "extreme counts and concurrent subscribers do not occur",
    " ".join(LOLA + f for f in ("event_subscription_control.cpp", "subscription_state_machine.cpp", "subscription_not_subscribed_states.cpp",
                                "subscription_subscribed_states.cpp", "subscription_subscription_pending_states.cpp", "subscription_helpers.cpp",
                                "subscription_state_machine_states.cpp")),
    [("limits", LOLA + "event_subscription_control.cpp Subscribe/Unsubscribe"), ("states", LOLA + "subscription_state_machine.cpp TransitionToState"),
     ("receive handlers", LOLA + "subscription_helpers.cpp EventReceiveHandlerManager")],
    "exact model comparison after every operation, limit monitors over threads and processes, walk checker over the reported states, "
    "with address/undefined/thread sanitizers",
    "a case is one operation compared with the model or one concurrent run; distinct = operation sequences and (operation, state, "
    "provider, handlers) combinations",
    "explores many schedules, not all; message passing is recorded, not done (C01-C04 do)")
PROPS["C13"] = P(
    "Sent samples reach every subscriber intact, in order and at most once",
    "Every sample a subscriber gets was sent, is bit-identical to what was sent while it is held, however much the provider sends or "
    "allocates meanwhile, and comes in sending order and at most once; the newest sample is got if the event has a slot more than "
    "subscriptions and allocations need. As many samples as subscribed for can be held, and the free count says how many more; the "
    "provider can always allocate while the samples in use fit. A receive handler that is set runs for every sample sent later, and "
    "not after it was unset.",
    "schedules histories configurations inputs",
    "all interleavings of one provider and its subscribers in several processes, all sample types and sizes, slot counts, subscription "
    "sizes, typed and generic proxies and skeletons, QM and ASIL-B, offers withdrawn and made again, subscriptions withdrawn and made again",
    "the tests replace shared memory and message passing by mocks; whole processes sending through shared memory do not occur in them",
    " ".join([COM + "proxy_event.h", COM + "skeleton_event.h", COM + "generic_proxy_event.cpp", COM + "generic_skeleton_event.cpp"] + [LOLA + f for f in ("proxy_event.h", "skeleton_event.h", "slot_collector.cpp",
             "provider_event_data_control_local_view.h", "consumer_event_data_control_local_view.h", "messaging/message_passing_service_instance.cpp", "skeleton.cpp", "proxy.cpp")]),
    [("sending", LOLA + "skeleton_event.h Allocate/Send"), ("receiving", LOLA + "slot_collector.cpp, proxy_event.h GetNewSamples"),
     ("notification", LOLA + "messaging/message_passing_service_instance.cpp NotifyEvent")],
    "whole processes under address/undefined/thread sanitizers; samples carry checksums and numbers, a shared board of what was begun "
    "and done to be sent is the oracle for order, freshness and existence",
    "a case is one look for new samples; distinct = (samples got, samples held, newer than before, gaps) combinations",
    "explores many schedules, not all; up to 4 consumer processes")
PROPS["C20"] = P(
    "Processes may die and come again: the others go on, and delivery resumes",
    "If a provider or consumer process is killed at any moment, all others go on undisturbed: consumers keep the samples they hold, "
    "intact, and a provider goes on sending with no slot or subscription lost to a dead consumer once that is started again. A "
    "restarted provider serves the consumers which are still there, without their doing, and a restarted consumer gets its "
    "subscription again unless its death left transactions that cannot be undone; samples stay in order and are never torn.",
    "crash_points histories schedules configurations",
    "kills of provider and consumers at any moment and in any number and order, with restarts, concurrent with sending, receiving, "
    "subscribing, offering and withdrawing",
    "the tests never kill a process while others use the same shared memory",
    " ".join(LOLA + f for f in ("skeleton.cpp", "proxy.cpp", "skeleton_memory_manager.cpp", "transaction_log_rollback_executor.cpp", "transaction_log_set.cpp",
                                "messaging/message_passing_client_cache.cpp", "messaging/message_passing_service_instance.cpp", "partial_restart_path_builder.cpp")),
    [("reuse of shared memory", LOLA + "skeleton.cpp PrepareOffer/PrepareStopOffer"), ("rollback", LOLA + "transaction_log_rollback_executor.cpp"),
     ("outdated processes", LOLA + "messaging/message_passing_service_instance.cpp HandleOutdatedNodeIdMsg")],
    "whole processes killed with SIGKILL and started again at random moments, under address/undefined/thread sanitizers, with the "
    "monitors of C13 and liveness deadlines; two probes reproduce the known findings",
    "a case is one look for new samples or one probe; distinct = (samples got, samples held, newer than before, gaps) combinations",
    "moments of death are sampled; every atomic step of the slot and transaction protocols is a death point in C12 and C15")
PROPS["C17"] = P(
    "Searches and lookups tell exactly the offered instances and every change",
    "FindService tells each matching instance that is offered at that quality, once, and no other, whichever application offers it. "
    "The handler of a running search is told every change from then on (never the same twice, never two calls at once, never "
    "after StopFindService has returned) and comes to know exactly what is offered once providers keep still, even if an instance "
    "was offered and withdrawn in quick succession. A provider started again after a crash is seen as gone and back. "
    "An offer that is withdrawn or fails leaves nothing that can be found.",
    "schedules histories crash_points fault_sequences configurations",
    "all interleavings of offers, withdrawals (also for QM only), searches for one or any instance, lookups and handlers that start "
    "and stop searches, in several applications; any moment of death of a provider; any failing file system call",
    "the tests replace the file system and inotify by mocks that deliver one chosen batch of events",
    " ".join([LOLA + "service_discovery/client/service_discovery_client.cpp", LOLA + "service_discovery/flag_file.cpp",
              LOLA + "service_discovery/flag_file_crawler.cpp", LOLA + "service_discovery/known_instances_container.cpp", COM + "service_discovery.cpp"]),
    [("events", LOLA + "service_discovery/client/service_discovery_client.cpp HandleEvents"), ("lookup", LOLA + "service_discovery/flag_file_crawler.cpp"),
     ("offer", LOLA + "service_discovery/flag_file.cpp Make"), ("handlers", COM + "service_discovery.cpp StopFindService")],
    "several service discoveries and whole provider processes with the real file system and inotify, under address/undefined/thread "
    "sanitizers, with a truth board (sequence-numbered) as oracle, kills and injected file system failures",
    "a case is one lookup compared, handler call or settled search; distinct = (search, answer) combinations and fault placements",
    "explores many schedules, not all; inotify queue overflow ends the process by design and is not provoked")
PROPS["C18"] = P(
    "A method call runs the handler exactly once and brings back its result",
    "A call of a method that succeeds has run the provider's handler exactly once, with the arguments given, and its result is "
    "what that run returned and stays so while it is held; a call that fails has run it at most once. While a service stays offered, "
    "its enabled methods can be called by every proxy, also by one made before the provider stopped or died and came again; methods not "
    "enabled cannot be called. No handler runs before the service is offered or after withdrawing it has returned, nor for arguments or "
    "results that are still in use.",
    "schedules histories crash_points configurations inputs",
    "all interleavings of calls by threads of several processes (and the provider's own) through their own proxies, with and without "
    "copying, offers withdrawn and made again, QM and ASIL-B, kills of provider and consumers at any moment",
    "the tests replace message passing and shared memory by mocks; calls between processes do not occur in them",
    " ".join([COM + "methods", LOLA + "methods"] + [LOLA + f for f in ("proxy_method.cpp", "skeleton_method.cpp", "skeleton.cpp", "proxy.cpp",
              "messaging/message_passing_service_instance.cpp")]),
    [("calls", LOLA + "proxy_method.cpp DoCall"), ("running the handler", LOLA + "skeleton_method.cpp"), ("subscription", LOLA + "skeleton.cpp OnServiceMethodsSubscribed"),
     ("recovery", LOLA + "proxy.cpp ServiceAvailabilityChangeHandler")],
    "whole processes call each other under address/undefined/thread sanitizers; every call has a number on a shared board that the handler "
    "enters itself in (exactly once, not early, not late), arguments and results carry checksums",
    "a case is one call; distinct = (method, state of the offer, proxy known to work) combinations",
    "explores many schedules, not all; up to 3 consumer processes with 3 threads each")
PROPS["C19"] = P(
    "A field is one register: reads, writes and subscriptions agree on its values",
    "Every value of a field that is read or received was written, whole, by Update or Set; Get gives one that was not overwritten before "
    "the call began, later reads never give an older value than earlier ones, and subscribers get the values in writing order, each once, "
    "the newest one if they look. Set returns what the set handler made of the value and makes that the value; set handlers of a field "
    "do not run at once. A field cannot be offered without a value and, with setter, a set handler.",
    "schedules histories crash_points configurations",
    "all interleavings of updates (with and without copying), sets, gets and subscriptions by threads of several processes, offers withdrawn "
    "and made again, kills of provider and consumers",
    "the tests replace the bindings by mocks; concurrent writers and readers do not occur in them",
    " ".join([COM + f for f in ("skeleton_field.h", "skeleton_field_base.h", "proxy_field.h", "skeleton_event.h")] + [LOLA + f for f in ("skeleton_event_common.h", "skeleton_event.h", "skeleton_method.cpp", "proxy_event.h")]),
    [("writing", COM + "skeleton_field.h Update"), ("set and get handlers", COM + "skeleton_field.h RegisterSetHandler"), ("sending", LOLA + "skeleton_event_common.h Send")],
    "whole processes read and write under address/undefined/thread sanitizers; an offline checker judges the recorded history of each "
    "field (interval order of reads and writes) as a register",
    "a case is one operation or one judged read; distinct = (operation, state of the offer, proxy known to work) combinations",
    "explores many schedules, not all; the register check finds stale, future, torn and made-up values and reads that go back")
GW = "score/mw/com/gateway/transport_layer/"
PROPS["C27"] = P(
    "What gateways tell each other arrives intact and in order; acks are true",
    "A request that a gateway's transport reports as acknowledged is handed over by the other gateway, once unless it had to be repeated "
    "after its time limit, and notifications at most once; everything arrives with the content it was sent with and in the order of its "
    "sender, also over several connections. Damaged, cut or hostile bytes are refused without harm; sending never takes longer than five "
    "time limits, a lost connection is set up again, and Shutdown always ends.",
    "schedules inputs fault_sequences histories",
    "all messages of up to 1024 bytes, all concurrent senders on both sides, connections cut at any byte, stalled, torn into pieces, "
    "failing sends, and shutdown at any moment",
    "the tests replace sockets, framing and the tracking of requests by mocks; two transports never talk to each other in them",
    " ".join(GW + "sample/" + f for f in ("bidirectional_transport.cpp", "message_framer.cpp", "pending_request_tracker.cpp",
                                            "messages/gateway_messages.cpp", "messages/serialization.h", "unique_socket.cpp")),
    [("framing", GW + "sample/message_framer.cpp SendMessage, ReceiveMessage"), ("acknowledgement", GW + "sample/bidirectional_transport.cpp TrySendAndWaitForAck, HandleIncomingMessage"),
     ("reconnection", GW + "sample/bidirectional_transport.cpp ConnectionLoop"), ("waiting", GW + "sample/pending_request_tracker.cpp WaitForAck")],
    "two real transports talk over loopback TCP through a relay that delays, tears, stalls and cuts, under address/undefined/thread "
    "sanitizers; every message has a number from which its whole content follows, and the books of both sides are compared",
    "a case is one message judged; distinct = (kind of disturbance, bytes passed, messages handled) and (type, size) combinations",
    "explores many schedules, not all; byte order and layout of both sides are the same, as the code requires")
PROPS["C21"] = P(
    "A configuration takes effect exactly as written, or not at all",
    "Every value of a configuration file ends up at the service type, instance, element, process or tracing setting it was written for, "
    "absent optional values take their documented defaults, and queries (lookups, names, allowed users, traced elements, Validate) agree with it. "
    "A missing, mistyped, out-of-range, duplicated, unknown or contradicting entry ends the process instead of being accepted. Deployments and "
    "identifiers survive their textual form, and entries can be merged or created while other threads look up: what they were given stays valid.",
    "inputs configurations schedules",
    "all configuration documents (any order of keys, any subset of optional keys, boundary values), one broken rule at a time, and all "
    "interleavings of lookups with merges and identifier creation",
    "the tests parse fixed documents one at a time and never look up while another thread adds",
    " ".join(COM + "configuration/" + f for f in ("configuration_json_parsing_strategy.cpp", "config_validate.cpp", "configuration.cpp", "global_configuration.cpp", "tracing_configuration.cpp",
                                                   "lola_service_instance_deployment.cpp", "lola_event_instance_deployment.cpp", "lola_field_instance_deployment.cpp",
                                                   "lola_method_instance_deployment.cpp", "service_instance_deployment.cpp", "service_type_deployment.cpp",
                                                   "binding_service_type_deployment_impl.h")) + " " + COM + "instance_identifier.cpp",
    [("parsing", COM + "configuration/configuration_json_parsing_strategy.cpp Parse"), ("uniqueness", COM + "configuration/config_validate.cpp ValidateUniqueServiceElementIds"),
     ("lookups and merging", COM + "configuration/configuration.cpp MergeServiceEntries, AddServiceTypeDeployment, GetServiceInstanceDeployment"),
     ("text form", COM + "instance_identifier.cpp Create, Serialize")],
    "random configuration models are written as JSON, parsed by the real parser and compared value by value with the model under "
    "address/undefined/thread sanitizers; damaged documents are parsed in children that must stop; readers and writers share a configuration",
    "a case is one value compared or one damaged document; distinct = shapes of configurations and kinds of damage",
    "samples configurations and schedules; the JSON reader is the stand-in of /verif/shim; interVm flags are not part of equality, as in the code")
PROPS["C22"] = P(
    "Identifiers are values: equality, order, hash and text form agree",
    "For every identifier and key the middleware hands out or indexes by (instance specifiers and identifiers, handles, service types and versions, instance ids, "
    "search handles, element and method ids, tracing keys): equality is an equivalence, the order is a strict weak one that agrees with equality, "
    "equal values have equal hashes, and copying, moving and assigning keep the value. Names are accepted exactly if well-formed, text forms lead back to an equal value "
    "and distinct values stay distinct, and sums of sizes are exact or refused.",
    "inputs",
    "all values, pairs and triples of these types, including those that differ in one part only, and all character strings offered as names or texts",
    "the tests compare a few hand-picked pairs; laws are about all pairs and triples",
    " ".join(COM + f for f in ("instance_specifier.cpp", "instance_identifier.cpp", "handle_type.cpp", "enriched_instance_identifier.cpp", "find_service_handle.cpp",
                               "configuration/service_identifier_type.cpp", "configuration/service_version_type.cpp", "configuration/service_instance_id.cpp",
                               "configuration/lola_service_instance_id.cpp", "configuration/service_instance_deployment.cpp", "configuration/service_type_deployment.cpp",
                               "bindings/lola/element_fq_id.cpp", "bindings/lola/proxy_instance_identifier.cpp", "bindings/lola/skeleton_instance_identifier.cpp",
                               "bindings/lola/methods/unique_method_identifier.cpp", "tracing/configuration", "util/arithmetic_utils.h")),
    [("order of instances", COM + "instance_identifier.cpp operator<"), ("order of deployments", COM + "configuration/service_instance_deployment.cpp operator<"),
     ("names", COM + "instance_specifier.cpp Create"), ("hashes", COM + "tracing/configuration/hash_helper_utility.h hash_combine")],
    "pools of near-equal values of each type are built through the public constructors, and every pair and triple is judged against the laws and against a model value "
    "kept beside it, under address and undefined-behaviour sanitizers; refused texts are tried in children",
    "a case is one pair, triple, name or text judged; distinct = shapes of values and names",
    "samples values (small pools with many near misses); hash values are only compared, not judged for quality")
PROPS["C23"] = P(
    "Tracing follows its filter and holds a sample exactly until it was traced",
    "A trace point is active exactly if the filter file enables it for an existing service element that the configuration marks as traced; what is handed to the tracing subsystem "
    "names the right client, element, point, sample position and memory. A sample given to tracing is held from the call until its trace is done, fails or the service stops, is "
    "released exactly once, and uses a slot no other sample uses; without a free slot nothing is traced and the loss is flagged with the next trace. Errors disable the point, the "
    "object (after one retry) or all tracing as specified, never the application, and elements of different threads do not disturb each other.",
    "histories inputs schedules fault_sequences",
    "all filter documents, all histories of offering, tracing, completion, stop and errors of the tracing library, and all interleavings of elements traced by different threads",
    "the tests replace the binding or the library by mocks, one call at a time; the two halves (generic and LoLa runtime) are never run together",
    " ".join((COM + "tracing/tracing_runtime.cpp", LOLA + "tracing/tracing_runtime.cpp", COM + "tracing/configuration/tracing_filter_config.cpp",
              COM + "tracing/configuration/tracing_filter_config_parser.cpp", COM + "tracing/type_erased_sample_ptr.h", COM + "tracing/trace_error.cpp",
              LOLA + "type_erased_sample_ptrs_guard.cpp")),
    [("slots", LOLA + "tracing/tracing_runtime.cpp RegisterServiceElement, EmplaceTypeErasedSamplePtr, ClearTypeErasedSamplePtr"),
     ("registration and retry", COM + "tracing/tracing_runtime.cpp RegisterShmObject, GetRegisteredShmObject"),
     ("reaction to errors", COM + "tracing/tracing_runtime.cpp ProcessTraceCallResult"), ("filter", COM + "tracing/configuration/tracing_filter_config_parser.cpp Parse")],
    "a tracing library stand-in records every call, answers with planned errors and completes traces late or from other threads; an exact model of the runtime predicts every call, "
    "answer and release in sequential histories, ownership monitors judge the threaded ones, and random filter files are compared with a model, under address/undefined/thread sanitizers",
    "a case is one call, query or release judged; distinct = combinations of point, state of the object, free slots and answer",
    "samples histories and schedules; the tracing library itself is a stand-in; one event is traced by one thread at a time, as the API requires")
