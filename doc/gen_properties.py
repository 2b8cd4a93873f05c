#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text is reviewable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, title
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe)
    if state:
        a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    a["hook_needed"] = hook
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))


I, S, H, C, G = "inputs", "schedules", "histories", "configurations", "programs"

prop("P01", "Contiguous put and get move exactly the named elements",
     "A blocking or non-blocking put, get, single-element put/get (every element type, every fixed width, raw memory, default or explicit context) transfers exactly nelems elements between the local buffer and the named symmetric object of the named PE, bit for bit, once completed. "
     "No other byte of any PE's memory changes, zero-length transfers change nothing, and transfers to oneself obey the same rule. "
     "A blocking put's source may be overwritten as soon as it returns, and a blocking get's destination holds the data when it returns.",
     [I, C, S], "every element type and width x every transfer form x offset, length (0 to many KB) x target PE incl. self x heap / static / space memory x direct or active-message transfer x MPI completing operations early or at the last allowed moment",
     "the tests put and get a handful of int arrays at offset 0 between 2 PEs on an MPI that completes at once; most types, widths, forms, lengths, contexts and the active-message path are never run",
     ["src/shmem/rma_typed.c.tpl", "src/shmem/rma_sized.c.tpl", "src/shmem/rma.c", "src/internal/rma_impl.h",
      "src/internal/rma_am_impl.h", "src/internal/rma_am_impl.c", "src/internal/mem_impl.c", "maint/rma_typedef.txt", "maint/rma_sizedef.txt"],
     [("direct transfer with local completion for blocking calls", "src/internal/rma_impl.h"), ("active-message put/get packets", "src/internal/rma_am_impl.c"),
      ("symmetric address translation", "src/internal/mem_impl.c")],
     ["full symmetric memory of every PE after a completed epoch", "local buffers at return of each blocking call"])

prop("P02", "Strided put and get touch exactly the strided elements",
     "A strided put or get copies element i of the source (at i times the source stride) to element i of the destination (at i times the destination stride) for every i below nelems, for every element type and width, every positive stride pair and every count. "
     "The elements in the gaps, and everything else, keep their values. "
     "The result does not depend on which strided transfers were made before.",
     [I, H, C], "element type/width x (dst, sst, nelems) incl. stride 1, equal, unequal and large strides, nelems 0 and 1 x sequences of transfers that repeat, extend and interleave stride patterns x direct or active-message",
     "the tests use two fixed stride patterns with one type; caching of layouts across calls and every other stride, count and type combination is untested",
     ["src/shmem/rma_typed.c.tpl", "src/shmem/rma_sized.c.tpl", "src/internal/strided_impl.h", "src/internal/strided_impl.c", "src/internal/rma_impl.h", "src/internal/rma_am_impl.c"],
     [("derived layouts and their cache", "src/internal/strided_impl.h"), ("packed strided active messages", "src/internal/rma_am_impl.c")],
     ["full symmetric memory and local buffers of every PE after completion"])

prop("P03", "Quiet completes every earlier remote operation",
     "When quiet returns, every put, strided put, non-blocking transfer and atomic that the calling PE issued before it on that context (all default-context operations for the plain call, including those on memory spaces) is complete: updates are visible to any PE told so by any means, results of non-blocking gets and fetches have arrived, and non-blocking source buffers may be reused.",
     [S, H, C, I], "sequences of mixed operations to mixed targets, sizes and memory regions, then quiet, then an out-of-band message to an observer that reads the memory directly; MPI holding every operation back as long as the standard allows; direct and active-message modes; default and explicit contexts",
     "on one node MPI performs every operation at once, so the tests pass with quiet removed",
     ["src/internal/order_impl.h", "src/shmem/order.c", "src/internal/amo_am_impl.h", "src/internal/rma_am_impl.h", "src/internal/rma_impl.h", "src/internal/ctx_impl.c"],
     [("window flush and active-message flush", "src/internal/order_impl.h"), ("outstanding-operation tracking", "src/include/oshmpi_impl.h")],
     ["memory of the target read locally after an out-of-band notification"])

prop("P04", "Fence orders puts and atomics to the same PE",
     "Puts, strided puts, non-blocking puts and atomics issued by a PE to one destination PE before a fence on a context take effect at that destination before any put or atomic the same PE issues to it on that context after the fence. "
     "An observer at the destination that sees the later update therefore sees all the earlier ones.",
     [S, H, C], "payload of mixed operations and sizes, fence, flag by put, p, iput or atomic; observer polling the flag through the API or by waiting; MPI reordering everything not ordered by a flush; direct and active-message modes, mixed between payload and flag",
     "MPI over shared memory never reorders in the tests, so removing the fence changes nothing they can see",
     ["src/internal/order_impl.h", "src/shmem/order.c", "src/internal/amo_am_impl.h", "src/internal/rma_am_impl.h"],
     [("fence as flush of windows and active messages", "src/internal/order_impl.h")],
     ["payload read at the destination right after the flag is seen"])

prop("P05", "Each atomic operation has its specified effect for its type",
     "Every atomic (fetch, set, swap, compare-swap, inc, add, and, or, xor, their fetching, non-blocking, context and deprecated forms), for every type it is offered for, changes the target object to exactly the value its definition gives, returns the previous value when fetching, and changes nothing else. "
     "A compare-swap whose condition does not match changes nothing.",
     [I, C], "operation x type x operand and initial values incl. extreme, negative, all-ones, floating special values x target PE incl. self x active-message and direct modes x neighbouring words watched",
     "the tests try a few int operations with small operands in one mode",
     ["src/shmem/amo_std_typed.c.tpl", "src/shmem/amo_ext_typed.c.tpl", "src/shmem/amo_bitws_typed.c.tpl", "src/internal/amo_impl.h", "src/internal/amo_am_impl.c", "src/internal/amo_am_impl.h",
      "maint/amo_std_typedef.txt", "maint/amo_ext_typedef.txt", "maint/amo_bitws_typedef.txt"],
     [("type-indexed operation handlers", "src/internal/amo_am_impl.c"), ("MPI accumulate operations in direct mode", "src/internal/amo_impl.h")],
     ["returned value, target word and its neighbours after quiet"])

prop("P06", "Concurrent atomics are linearizable and lose no update",
     "Atomic operations issued concurrently by any PEs on the same object behave as if executed one at a time in some order consistent with what each PE observed: no update is lost or applied twice, fetched values are those of that order, and exactly one of several competing compare-swaps wins.",
     [S, H, C], "2 to 8 PEs, mixed fetching, non-fetching and non-blocking atomics on few hot words hosted by idle, busy and participating PEs, random delays; active-message mode with every mix, direct mode with the declared operation set",
     "the tests increment a counter from two PEs; lost updates need particular interleavings and mixes",
     ["src/internal/amo_am_impl.c", "src/internal/amo_am_impl.h", "src/internal/amo_impl.h", "src/internal/am_impl.c", "src/internal/am_progress_impl.h", "src/internal/setup_impl.c"],
     [("serial execution of packets at the owner", "src/internal/amo_am_impl.c"), ("MPI per-element atomicity in direct mode", "src/internal/amo_impl.h")],
     ["per-operation call/return history with results, final values"])

prop("P07", "Wait and test report exactly whether the condition holds",
     "A wait on a symmetric variable returns only after the variable has satisfied the comparison, and does return once a remote put or atomic makes it hold; a test returns true exactly when the comparison holds for the current value. "
     "This is so for every comparison and type, with signed and unsigned order respected, and data put and fenced or quieted before the signalling update is visible when the wait returns.",
     [I, S, C], "type x comparison x value pairs around sign, zero and extremes x signalling by put, p, atomic set/add/swap from any PE incl. itself x delays; both modes",
     "the tests wait for one value to become equal; other comparisons, types, signedness and premature return are not exercised",
     ["src/internal/p2p_impl.h", "src/shmem/p2p_typed.c.tpl", "src/shmem/p2p.c", "maint/p2p_typedef.txt"],
     [("atomic read of the variable, comparison, progress", "src/internal/p2p_impl.h")],
     ["return of wait/test against a locally known value history"])

prop("P08", "Locks give mutual exclusion and hand over both turn and data",
     "At most one PE holds a given lock at a time, a try-lock never takes a held lock and takes a free one, and every release lets some waiter proceed until all have had the lock. "
     "What a PE wrote to symmetric memory while holding the lock is visible to the next holder. "
     "Different locks are independent, wherever in symmetric memory they live.",
     [S, H, C], "2 to 8 PEs contending on 1 to 4 locks with set, try and clear, critical sections that read-modify-write remote data without atomics, random delays and delayed MPI completion; static and heap locks; both modes",
     "the tests take one lock a few times from 2 PEs and MPI completes everything at once, so hand-over races and late data are invisible",
     ["src/internal/lock_impl.h", "src/shmem/lock.c"],
     [("queue of waiters with swap/compare-swap on the tail", "src/internal/lock_impl.h"), ("remote completion on release", "src/internal/lock_impl.h")],
     ["owner word and counters checked inside each critical section"])

prop("P09", "Barrier and sync separate all phases and barriers complete all updates",
     "No participating PE leaves a barrier or sync (whole program, team or active set) before every participant has entered it. "
     "A barrier also completes everything its participants issued before on the default context, to any PE inside or outside the set and on any memory, so it is visible afterwards; a sync orders participants and leaves others unaffected. "
     "Barriers on different sets, repeated any number of times in any mix, do not disturb each other.",
     [S, H, C], "all active sets (start, stride, size) of 2 to 8 PEs, teams from splits, random skews before entry, pending put/strided/atomic/non-blocking operations to members and non-members, MPI holding operations back, both modes",
     "the tests call barriers after trivially complete operations with no skew; a barrier that returns early or flushes too little passes",
     ["src/internal/coll_impl.h", "src/internal/coll_activeset_impl.h", "src/internal/coll_impl.c", "src/shmem/coll.c", "src/shmem/coll_activeset.c"],
     [("quiet plus MPI barrier with progress", "src/internal/coll_impl.h"), ("communicator per active set", "src/internal/coll_impl.c")],
     ["entry/exit order through an out-of-band log; memory right after exit"])

prop("P10", "Team collectives deliver the right data to the right PEs",
     "Broadcast, collect, fixed collect, all-to-all and strided all-to-all on a team leave in every member's destination exactly the specified arrangement of the members' source elements by team rank, for every type and for raw memory, every root and every count (zero and, for collect, unequal counts included). "
     "Sources, gaps, the rest of the destination object and non-members are untouched.",
     [I, G, C], "teams (world, shared, strided, 2-D, nested) of 1 to 8 PEs x operation x type x counts x roots x strides x in sequences of mixed collectives",
     "the tests run one collective of fixed size on all PEs",
     ["src/shmem/coll_typed.c.tpl", "src/shmem/coll.c", "src/internal/coll_impl.h", "src/internal/coll_impl.c", "maint/coll_typedef.txt"],
     [("MPI collectives on the team's communicator", "src/internal/coll_impl.h")],
     ["destination and guard bytes on every member"])

prop("P11", "Reductions combine every contribution exactly once with the right operator",
     "A reduction over a team or an active set leaves at every member, for each element, the sum, product, minimum, maximum, and, or, or exclusive-or of the members' source elements, for every type the operation is offered for, in place or into a separate destination. "
     "Nothing outside the nreduce destination elements changes and non-members take no part.",
     [I, G, C], "operation x type (signed, unsigned, floating, complex) x values incl. extremes x teams and active sets of 1 to 8 PEs x counts incl. 0 x in-place or separate",
     "the tests sum a few ints over all PEs; wrong operator, type or signedness in any other generated routine passes",
     ["src/shmem/reduce_minmax_team_typed.c.tpl", "src/shmem/reduce_sumprod_team_typed.c.tpl", "src/shmem/reduce_bitws_team_typed.c.tpl", "src/shmem/reduce_minmax_aset_typed.c.tpl",
      "src/shmem/reduce_sumprod_aset_typed.c.tpl", "src/shmem/reduce_bitws_aset_typed.c.tpl", "src/internal/coll_impl.h", "src/internal/coll_activeset_impl.h", "maint/reduce_sumprod_team_typedef.txt"],
     [("MPI_Allreduce with the mapped operator and type", "src/internal/coll_impl.h")],
     ["destination and guards on every PE against a serial fold"])

prop("P12", "Active-set data collectives honour start, stride, size and root",
     "Broadcast, collect, fixed collect, all-to-all and strided all-to-all over an active set deliver, to every member and no one else, the specified arrangement of members' elements ordered by position in the set, for both widths and every count. "
     "The root is a position in the set and a broadcast leaves the root's own destination unchanged. "
     "Sets that overlap, repeat or share synchronisation arrays after completion do not disturb each other.",
     [I, G, H], "every (start, log stride, size) of 2 to 8 PEs x root position x counts incl. 0 and unequal x widths x sequences over different sets",
     "the tests use the set of all PEs with stride 1",
     ["src/internal/coll_activeset_impl.h", "src/shmem/coll_activeset.c", "src/internal/coll_impl.c"],
     [("communicator per active set", "src/internal/coll_impl.c"), ("MPI collectives on it", "src/internal/coll_activeset_impl.h")],
     ["destination and guards on every PE, members and others"])

prop("P13", "Teams contain exactly the specified PEs with consistent numbering",
     "Splitting a team by a strided triplet or into a 2-D grid gives each member a team with exactly the specified PEs numbered in the specified order, and gives everyone else the invalid team. "
     "Rank, size and translation queries agree on every member, translating there and back is the identity for common members and reports absence otherwise, and the configuration given is returned. "
     "Destroying teams in any order leaves the others usable.",
     [I, H, G], "trees of random splits (start, stride, size; any x range) to depth 4 over 2 to 8 PEs, queries for every rank pair, destruction in random order, and many create/destroy cycles",
     "the tests split the world once",
     ["src/internal/team_impl.c", "src/shmem/team.c"],
     [("communicator and group per team", "src/internal/team_impl.c")],
     ["query results on every PE against a set model"])

prop("P14", "The symmetric heap returns symmetric, disjoint, aligned, intact blocks",
     "Every successful allocation returns the same heap offset on all PEs, at least the requested size, aligned as requested, disjoint from every live block, zeroed if asked, and addressable by every remote operation over its whole length up to the heap's size; resizing keeps the contents. "
     "An allocation that cannot be satisfied returns null and disturbs nothing, and freed memory can be allocated again without limit on repetition. "
     "The heap has at least the configured size.",
     [I, H, C], "random sequences of malloc, calloc, align, realloc, malloc-with-hints and free with sizes from 0 to beyond the heap, fill to exhaustion and drain, alignments 8 to 64 KB, heap sizes given as bytes and with unit suffixes",
     "the tests allocate one small block or two",
     ["src/internal/mem_impl.c", "src/shmem/mem.c", "src/internal/setup_impl.c", "src/internal/util/symm_mem.c"],
     [("mspace over the symmetric heap", "src/internal/mem_impl.c"), ("heap sizing and registration", "src/internal/setup_impl.c")],
     ["pointers relative to a model allocator, block contents, remote access to first and last byte"])

prop("P15", "Memory spaces and their contexts are isolated, complete symmetric regions",
     "Blocks allocated from a memory space are symmetric across PEs, disjoint, aligned and zeroed as requested and within the space's size; once the space is attached they can be the target of every remote operation through the default context and through contexts created on the space. "
     "Completion calls on such a context complete that context's operations, and so does destroying it. "
     "Spaces can be created, attached, detached and destroyed repeatedly and in any order without affecting the main heap or each other.",
     [I, H, C, S], "1 to 5 spaces with random sizes and context counts, random allocation and access sequences, completion calls at any point of a space's life, MPI holding operations back, both modes",
     "the tests create one space and do a few puts",
     ["src/internal/space_impl.c", "src/shmemx/space.c", "src/internal/ctx_impl.c", "src/shmem/context.c", "src/internal/util/mem_pool.c", "src/internal/order_impl.h"],
     [("space list and windows", "src/internal/space_impl.c"), ("context pool", "src/internal/ctx_impl.c"), ("bump allocator for space objects", "src/internal/util/mem_pool.c")],
     ["addresses, contents, and contexts returned; remote access through each"])

prop("P16", "Startup, environment settings and queries report the truth",
     "After any initialisation call the PE numbers are 0 to n-1 and agree with the launcher, the provided thread level is reported consistently and is no less than both sides support, and library name and version are those of the headers. "
     "The heap-size setting with optional unit suffix is honoured, what the library prints about its version and settings is what was set, and accessibility queries answer yes exactly for PEs in range and for symmetric addresses, whose local pointer is returned for oneself.",
     [I, C], "initialisation forms x thread levels x heap-size strings x addresses in heap, static, space, stack and private heap memory, in and just outside the regions x PE numbers in and out of range",
     "the tests check my_pe/n_pes and one size",
     ["src/internal/setup_impl.c", "src/shmem/setup.c", "src/shmem/profile.c", "src/internal/mem_impl.c", "include/shmem.h.in.tpl"],
     [("environment parsing", "src/internal/setup_impl.c"), ("address classification", "src/include/oshmpi_impl.h")],
     ["query results against the launcher's environment and known addresses"])

prop("P17", "No valid program makes the library commit a memory error or undefined behaviour",
     "Under any valid sequence of calls the library never reads or writes outside live objects, never uses freed or uninitialised memory, never accesses a remote window out of bounds and never executes undefined behaviour.",
     [I, H, S, C], "all workloads of the other properties, plus allocation, strided-layout, space, context and team churn, under address and undefined-behaviour sanitizers, in several configurations and modes",
     "the test builds carry no sanitizer, and most code paths are not run at all",
     ["src"],
     [("argument handling, layout cache, packet pools, space and team bookkeeping", "src/internal")],
     ["sanitizer reports; bounds of every one-sided access seen at the MPI boundary"])

prop("P18", "Valid programs make progress: no deadlock or lost wake-up",
     "Any combination of remote operations, completion, point-to-point waits, locks, atomics, collectives, team and space management that is valid for the API finishes: a PE inside any blocking library call serves the requests of its peers, and every blocking call returns once its peers have made the calls it depends on.",
     [S, H, C], "2 to 8 PEs in random phase-skewed mixtures of blocking calls; a peer already blocked in each kind of call while others issue each kind of operation to it and need an answer; synchronous MPI sends, delayed completions; bounded number of steps",
     "deadlocks need a peer inside the right call at the right time; the tests run in lock step",
     ["src/internal/am_progress_impl.h", "src/internal/am_impl.c", "src/internal/coll_impl.h", "src/internal/p2p_impl.h", "src/internal/lock_impl.h", "src/internal/team_impl.c", "src/internal/space_impl.c"],
     [("progress inside blocking calls", "src/internal/am_progress_impl.h")],
     ["every workload ends within its step budget; per-PE heartbeat"])

prop("P19", "All modes and configurations compute the same result",
     "A deterministic program gives the same final memory and returned values under active-message or direct transfers, active-message or direct atomics, operation tracking, layout caching, error checking on or off, separate or dynamic windows, every thread level and every setting of the tuning and debugging environment variables.",
     [C, I], "random race-free programs over the whole API run under every combination of run-time modes and each build configuration; the memory digests are compared with each other and with a reference model",
     "the tests run in one build and one mode",
     ["configure.ac", "src/internal/setup_impl.c", "src/internal/rma_impl.h", "src/internal/amo_impl.h", "src/include/oshmpi_impl.h", "src/internal/order_impl.h"],
     [("mode selection", "src/internal/setup_impl.c"), ("configuration macros", "src/include/oshmpi_impl.h")],
     ["digests of symmetric memory and results per program"])

prop("P20", "With full thread support, concurrent calls from threads are safe",
     "When the library provides multiple-thread support, any threads of a PE may call it at the same time: operations of each keep their single-threaded meaning, atomics and completions stay correct, allocations stay disjoint, and the library has no data race.",
     [S, H, C], "2 to 4 threads per PE issuing mixed transfers, strided transfers, atomics, completions, waits and tests; random delays; thread sanitizer and value oracles",
     "no threaded test with concurrency runs in the default build",
     ["src/internal/am_progress_impl.h", "src/internal/am_impl.c", "src/internal/amo_am_impl.c", "src/internal/strided_impl.h", "src/internal/mem_impl.c", "src/internal/util/thread.h", "src/include/oshmpi_impl.h"],
     [("critical sections and atomic flags", "src/internal/util/thread.h")],
     ["race reports with a library frame; results of each thread's operations"])

prop("P21", "Everything acquired is released by finalize, and churn does not accumulate",
     "By the end of finalize every MPI communicator, group, window, datatype, info object and request and every private heap block and mapping the library acquired has been released, "
     "teams the program left undestroyed included (memory spaces are for the program to destroy). "
     "Creating and destroying teams, spaces, contexts and symmetric blocks, and repeating transfers and collectives, any number of times does not make resource use grow, apart from one cached entry for each distinct strided layout or active set.",
     [H, C], "programs with random numbers of every resource, left alive or destroyed in random order, and long create/destroy loops; live counts sampled during and after",
     "tests do not look at resources and end before exhaustion",
     ["src/internal/setup_impl.c", "src/internal/team_impl.c", "src/internal/space_impl.c", "src/internal/ctx_impl.c", "src/internal/coll_impl.c", "src/internal/strided_impl.c", "src/internal/am_impl.c", "src/internal/mem_impl.c"],
     [("finalize and destroy paths", "src/internal/setup_impl.c")],
     ["counts of live MPI handles and heap blocks at the MPI and allocator boundaries"])

prop("P22", "Finalize completes pending work and global exit ends every PE with its status",
     "Finalize, explicit or implied by the normal exit of a program that began with start_pes, completes pending operations to all PEs before any memory they target goes away, waits for every PE, and lets the program end with its own exit status. "
     "A global exit by any PE ends all PEs promptly with the given status, whatever the others are doing.",
     [S, H, I], "operations of every kind left pending before finalize with PEs arriving at different times; implicit finalize at exit; global exit with statuses from any PE while the others compute, wait, hold locks or sit in collectives",
     "the tests call finalize at quiescence",
     ["src/internal/setup_impl.c", "src/shmem/setup.c", "src/internal/am_impl.c"],
     [("barrier and teardown order", "src/internal/setup_impl.c"), ("exit handler", "src/shmem/setup.c")],
     ["effects seen by an observer at teardown; exit status and remaining processes"])

prop("P23", "Every API form of an operation means the same",
     "Typed, sized, raw-memory, generic, context and deprecated names of one operation have the same effect for the same arguments: generic calls select the routine of the argument's exact type, with or without a context, in C11 and in earlier C, and deprecated names behave as their successors.",
     [I, G], "every generic selection by type and context, every deprecated alias, each compared in effect with the typed form; compiled as C11 and as older C",
     "the tests use typed names almost only; a generic that selects a neighbour type's routine passes them",
     ["include/shmem.h.in.tpl", "include/shmem_rma_typed.h.tpl", "include/shmem_amo_std_typed.h.tpl", "include/shmem_amo_ext_typed.h.tpl", "include/shmem_amo_bitws_typed.h.tpl", "include/shmem_p2p_typed.h.tpl",
      "include/shmem_coll_typed.h.tpl", "maint/build_typed_api.pl", "src/shmem/p2p.c", "src/shmem/mem.c", "src/shmem/setup.c"],
     [("generic selection macros", "include/*.tpl"), ("code generation from type tables", "maint/build_typed_api.pl")],
     ["memory effect and returned value of each form"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
