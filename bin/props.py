#!/usr/bin/env python3
"""source of /verif/properties.jsonl and /verif/MANIFEST.json (run without arguments to regenerate both)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from table import CHECKS

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe), hook_needed=None), na=na))


S, I, H, C, FS, PR, CP = "schedules", "inputs", "histories", "configurations", "fault_sequences", "programs", "crash_points"
IO = "include/stxxl/bits/io/"
LIO = "lib/io/"

prop("C01", "Every accepted I/O request completes exactly once and all waiters return",
     "Every asynchronous read or write that is submitted completes exactly once: its completion handler runs exactly once, before wait() or poll() reports completion, and never afterwards. Every thread waiting for it returns, and once all requests are finished nothing in the library still holds or references them. This holds for every backend, queue sharing, queue length and priority setting, whatever the order in which threads run and the kernel completes operations.",
     [S, H, C, FS], "all interleavings of client threads, queue workers and kernel completions; all sequences of submit/wait/poll/cancel by several threads; all backends, queue assignments, AIO queue depths; EAGAIN/EINTR/stalls/spurious wakeups from the OS",
     "tests run one benign schedule per execution on a fast disk: lost wakeups, double completions and leaked queue slots need specific interleavings between submitter, worker, canceller and the kernel",
     [IO + "request.h", IO + "request_with_state.h", IO + "request_with_waiters.h", LIO + "request_queue_impl_qwqr.cpp", LIO + "request_queue_impl_1q.cpp", LIO + "linuxaio_queue.cpp", IO + "disk_queues.h"],
     [("worker loops and semaphores", LIO + "request_queue_impl_qwqr.cpp, " + LIO + "request_queue_impl_1q.cpp"), ("posting/waiting AIO queues", LIO + "linuxaio_queue.cpp"), ("request state machine", LIO + "request_with_state.cpp")],
     [("request state", "OP, DONE, READY2DIE", IO + "request_with_state.h")], ["request::wait", "request::poll", "completion handler", "file::get_request_nref"])
prop("C02", "A successful cancel means the transfer never happens; otherwise it completes",
     "If cancel() returns true the request's handler never runs, its buffer is neither read nor written afterwards and the data on disk is unaffected; cancel() succeeds at most once per request. If it returns false the request completes normally, and in both cases every waiter returns.",
     [S, H, C], "all interleavings of cancel with the worker picking the request up, with completion and with concurrent waiters and cancellers, on every backend",
     "the window between a worker taking a request and finishing it is nanoseconds in a test run, so tests only ever see the two easy outcomes",
     [LIO + "request_with_state.cpp", LIO + "request_queue_impl_qwqr.cpp", LIO + "request_queue_impl_1q.cpp", LIO + "linuxaio_queue.cpp", LIO + "linuxaio_request.cpp"],
     [("cancel_request of the queues", LIO + "request_queue_impl_qwqr.cpp"), ("request_with_state::cancel", LIO + "request_with_state.cpp")], observe=["request::cancel", "request::wait", "completion handler", "buffer contents"])
prop("C03", "A read returns the last completed write of every byte it covers",
     "On every file backend a read issued after a write of the same bytes has completed returns exactly the data of that write, over the full 64-bit offset range, including bytes written by other requests to neighbouring regions at the same time. Bytes that were never written inside the file read as zero on backends with a backing file. The write-combining translation layer (wbtl) guarantees this for blocks read and written as a whole; discarding a block, or running out of space, leaves all other blocks intact.",
     [S, H, C, I], "all interleavings of concurrent transfers to disjoint regions by several threads through shared or separate queues; all backends; offsets beyond 2 and 4 GiB; direct and buffered I/O",
     "tests write and read one region at a time, so races on the shared file position, mapping or queue slots and rarely used offset ranges are not exercised",
     [LIO + "syscall_file.cpp", LIO + "mmap_file.cpp", LIO + "mem_file.cpp", LIO + "fileperblock_file.cpp", LIO + "linuxaio_file.cpp", LIO + "linuxaio_request.cpp", LIO + "ufs_file_base.cpp", LIO + "wbtl_file.cpp", LIO + "simdisk_file.cpp"],
     [("fd mutex around seek+transfer", LIO + "syscall_file.cpp"), ("iocb set-up", LIO + "linuxaio_request.cpp")], observe=["file::aread/awrite", "bytes on the disk"])
prop("C04", "Partial transfers by the operating system are invisible to the user",
     "When the operating system transfers fewer bytes than asked for, or interrupts a transfer at the end of the file, the library continues until the request is complete: writes reach the disk completely and at the right place, reads return all bytes, and the part of a read behind the end of the file is filled with zeroes. A request never completes successfully with only part of its data transferred.",
     [FS, S, H], "all sequences of short reads and writes of any (also unaligned) length at any point of a transfer, in any interleaving with other requests",
     "local file systems practically never return short counts, so the continuation code is never executed by the tests",
     [LIO + "syscall_file.cpp", LIO + "fileperblock_file.cpp", LIO + "linuxaio_request.cpp"],
     [("transfer loop", LIO + "syscall_file.cpp")], observe=["file::aread/awrite", "bytes on the disk"])
prop("C05", "An I/O error is reported on exactly the request that failed",
     "When the operating system reports an error for a transfer, waiting for exactly that request raises an I/O error - also through wait_all, wait_any and polling, and for every waiter - and requests that did not fail never raise one (a wbtl file, which writes its buffers later, is excepted). The queue keeps serving the requests before and after it.",
     [FS, S, H, C], "all placements of EIO, ENOSPC, mmap failure, io_submit failure and AIO completion errors over all backends and interleavings",
     "tests never see a device error",
     [LIO + "serving_request.cpp", LIO + "request.cpp", LIO + "linuxaio_request.cpp", LIO + "linuxaio_queue.cpp", IO + "request_operations.h", LIO + "syscall_file.cpp", LIO + "mmap_file.cpp"],
     [("error captured in request and rethrown", LIO + "request.cpp, " + LIO + "serving_request.cpp"), ("result of AIO events", LIO + "linuxaio_request.cpp")], observe=["request::wait/poll", "wait_all", "wait_any"])
prop("C06", "wait_any, poll_any and wait_all report only finished requests and do return",
     "wait_any returns a request of the given range that is finished, poll_any returns true with the index of a finished request only, and wait_all returns only when all are finished. wait_any returns within bounded time after some request finished and leaves nothing behind in the other requests.",
     [S, H, C, FS], "all interleavings of the waiter registering and unregistering itself with requests that complete at the same time, spurious wakeups included",
     "a waiter missed between registration and completion only hangs in one specific interleaving; spurious wakeups do not occur in tests",
     [IO + "request_operations.h", LIO + "request_with_waiters.cpp", "include/stxxl/bits/common/onoff_switch.h", "include/stxxl/bits/common/state.h"],
     [("waiter sets", LIO + "request_with_waiters.cpp"), ("on/off switch", "include/stxxl/bits/common/onoff_switch.h")], observe=["wait_any", "poll_any", "wait_all"])
prop("C07", "I/O statistics count exactly the completed transfers",
     "Between two snapshots of the statistics taken while no request is in flight, the number of reads and writes and the transferred volumes equal exactly those of the requests completed in between; cancelled requests do not count. All reported times are non-negative and parallel times do not exceed elapsed time.",
     [S, H, C], "all interleavings of concurrently starting and finishing requests on all backends, including cancellation and stalls",
     "tests print the statistics but compare them with nothing, and concurrent updates race only occasionally",
     [IO + "iostats.h", LIO + "iostats.cpp", LIO + "linuxaio_request.cpp", LIO + "wbtl_file.cpp"],
     [("scoped timers with mutex", IO + "iostats.h"), ("write_started/read_started", LIO + "iostats.cpp")], observe=["stats_data differences"])
prop("C08", "Blocks handed out by the block manager never overlap while they are owned",
     "A block allocated from the block manager lies inside its disk, aligned, and overlaps no other block that is allocated at the time, whatever thread allocated it and whatever block sizes are mixed. Data written to an owned block is returned unchanged until its owner deletes the block, no matter what other threads allocate, delete and write meanwhile.",
     [S, H, C], "all histories of concurrent new_blocks/delete_blocks/reads/writes with mixed block sizes, allocation strategies, disks and backends, in all interleavings",
     "tests allocate from one thread with one block size on one disk",
     ["include/stxxl/bits/mng/block_manager.h", "include/stxxl/bits/mng/disk_allocator.h", "lib/mng/disk_allocator.cpp", "lib/mng/block_manager.cpp"],
     [("free-space map under mutex", "include/stxxl/bits/mng/disk_allocator.h"), ("discard before free", "include/stxxl/bits/mng/block_manager.h")], observe=["new_blocks/delete_blocks", "block contents"])
prop("C09", "Disk space accounting is exact and failed allocations change nothing",
     "Whenever no allocation or deallocation is running, total minus free space equals the bytes of the blocks currently allocated and so do the reported allocation counters. A failed allocation (out of space, or the file cannot grow), or deleting a block twice in a row, raises an exception and leaves the amount of allocated space as it was; freed space can be allocated again, also as larger blocks.",
     [S, H, C, FS], "all histories of allocations and frees of all sizes by several threads, full disks, failing file growth at any point, several disks",
     "the tests never fill a disk or fail to grow one, and check no totals",
     ["include/stxxl/bits/mng/block_manager.h", "include/stxxl/bits/mng/disk_allocator.h", "lib/mng/disk_allocator.cpp"],
     [("free-region merging", "lib/mng/disk_allocator.cpp"), ("allocation loop per disk", "include/stxxl/bits/mng/block_manager.h")], observe=["block_manager::get_total_bytes/get_free_bytes/get_current_allocation"])
prop("C10", "Block pools never lose, mix up or duplicate block contents",
     "A block written through a pool is what any later read through the pool or from disk returns, in whatever mixture of writes, re-writes, hints, invalidations and steals, and after the pool is destroyed or shrunk all written blocks are on disk. A pool never lends the same buffer twice at a time and always makes progress when a block is requested.",
     [S, H, C, FS], "all sequences of pool operations over few blocks (so that the same block is written, hinted and read again while older requests are in flight), pool sizes 0 upward, all completion orders",
     "tests touch each block once, in one order, with a fast disk",
     ["include/stxxl/bits/mng/write_pool.h", "include/stxxl/bits/mng/prefetch_pool.h", "include/stxxl/bits/mng/read_write_pool.h"],
     [("busy-block list and hash", "include/stxxl/bits/mng/prefetch_pool.h"), ("steal", "include/stxxl/bits/mng/write_pool.h")], observe=["pool read/write/hint/steal/resize", "disk contents"])
prop("C11", "Buffered block streams and the prefetcher deliver exactly the sequence written",
     "The sequence of elements written through a buffered output stream or buffered writer is exactly what the forward, reverse and prefetching readers return, for every number of buffers, every prefetch order and every completion order. All blocks are on disk when flush or the destructor returns.",
     [S, H, C], "all completion orders, buffer counts, prefetch schedules, lengths and positions",
     "tests use fixed buffer counts and one completion order",
     ["include/stxxl/bits/mng/block_prefetcher.h", "include/stxxl/bits/mng/buf_writer.h", "include/stxxl/bits/mng/buf_istream.h", "include/stxxl/bits/mng/buf_istream_reverse.h", "include/stxxl/bits/mng/buf_ostream.h", "lib/algo/async_schedule.cpp"],
     [("prefetch sequence and completion switches", "include/stxxl/bits/mng/block_prefetcher.h"), ("write buffers and busy list", "include/stxxl/bits/mng/buf_writer.h")], observe=["buf_istream/buf_ostream/buffered_writer", "disk contents"])
prop("C12", "The block scheduler preserves swappable block contents within its memory limit",
     "A swappable block acquired through the scheduler always holds the data it held when last released as dirty, whatever was swapped in and out between, for the online and offline scheduling algorithms. The scheduler never keeps more blocks in memory than its limit, and initialised/uninitialised state and explicit in/export are honoured.",
     [S, H, C], "all sequences of acquire/release/initialise/deinitialise/explicit read and write timing on more blocks than fit in memory, for each algorithm and limit, in all completion orders",
     "the only test uses a fixed access pattern",
     ["include/stxxl/bits/mng/block_scheduler.h"],
     [("eviction by priority queue, dirty flags", "include/stxxl/bits/mng/block_scheduler.h")], observe=["swappable block contents", "disk contents after release"])
prop("C13", "vector behaves like an in-memory array for every access history",
     "After any sequence of element accesses, resizes, push/pop, iterator and buffered-reader/writer use, flushes, swaps and copies, a vector has exactly the elements of a reference array, for every page size, number of cache pages, pager and allocation strategy. Flushed contents are on disk, an exported vector's files hold exactly its elements, and a vector given another's block list reads that one's elements.",
     [H, C, S], "all operation sequences on vectors larger than their cache, all cache geometries, all completion orders",
     "tests run a few linear scans; eviction of dirty pages under random access with each geometry is not compared with a model",
     ["include/stxxl/bits/containers/vector.h", "include/stxxl/bits/containers/pager.h"],
     [("page status and pager", "include/stxxl/bits/containers/vector.h")], observe=["elements", "size", "disk contents after flush", "exported files"])
prop("C14", "Stacks, queue, deque and sequence keep exactly the elements pushed",
     "After any history of operations each stack variant is LIFO, the queue is FIFO, and the deque and sequence have exactly the content and order of a reference model, for every pool and block size; a swap or resize of the prefetch aggressiveness never changes the content. Nothing is lost or duplicated when the history oscillates around block boundaries.",
     [H, C, S], "all push/pop/access sequences with random walk around block boundaries, all pool sizes, all completion orders",
     "tests push everything and then pop everything",
     ["include/stxxl/bits/containers/stack.h", "include/stxxl/bits/containers/queue.h", "include/stxxl/bits/containers/deque.h", "include/stxxl/bits/containers/sequence.h"],
     [("cache blocks and swap at boundaries", "include/stxxl/bits/containers/stack.h"), ("front/back blocks through pool", "include/stxxl/bits/containers/queue.h, sequence.h")], observe=["top/front/back/size/elements/streams"])
prop("C15", "map (B+-tree) equals an ordered map for every history of operations",
     "After any history of insertions, erasures, updates, bulk loading, swaps and cache settings, lookups, bounds, size and iteration in both directions return exactly what an ordered in-memory map returns, and iterators to untouched elements remain valid. This holds for every node size, cache size and prefetching mode.",
     [H, C, S], "all operation histories that split, fuse and balance nodes and leaves with iterators alive, all cache sizes and completion orders",
     "tests insert then erase in a few orders; erase-heavy mixed histories with live iterators are not compared with a model",
     ["include/stxxl/bits/containers/btree/btree.h", "include/stxxl/bits/containers/btree/leaf.h", "include/stxxl/bits/containers/btree/node.h", "include/stxxl/bits/containers/btree/node_cache.h", "include/stxxl/bits/containers/btree/iterator_map.h"],
     [("node cache with fix/dirty flags", "include/stxxl/bits/containers/btree/node_cache.h"), ("iterator map", "include/stxxl/bits/containers/btree/iterator_map.h")], observe=["find/insert/erase/bounds/iteration/size"])
prop("C16", "unordered_map equals an in-memory hash map for every history",
     "After any history of insert, insert_oblivious, erase, erase_oblivious, operator[], rehash, bulk insert, clear and swap, membership, values, size and iteration are exactly those of a reference map, for every buffer size, block cache size and load factor. Iterators used for reading and writing elements address the element they were obtained for.",
     [H, C, S], "all operation histories with arbitrary interleaving of internal and external (rehashed) elements, colliding keys, small buffers and caches, all completion orders",
     "tests run one insert/erase/find pattern with default buffer sizes",
     ["include/stxxl/bits/containers/hash_map/hash_map.h", "include/stxxl/bits/containers/hash_map/block_cache.h", "include/stxxl/bits/containers/hash_map/util.h", "include/stxxl/bits/containers/hash_map/iterator.h"],
     [("internal/external node merge on rehash", "include/stxxl/bits/containers/hash_map/hash_map.h"), ("block cache", "include/stxxl/bits/containers/hash_map/block_cache.h")], observe=["find/insert/erase/operator[]/size/iteration"])
prop("C17", "priority_queue always removes the largest element and loses none",
     "For every history of pushes and pops, top() is a maximal element of what was pushed and not yet popped, size() is exact and the multiset of elements popped equals that pushed. This holds for every configuration of buffers, merger arity, groups and pool sizes.",
     [H, C, S], "all push/pop histories that cascade through buffer, internal and external mergers, deletion from several groups, small pools, all completion orders, parallel and sequential merging",
     "tests fill and then empty the queue with permuted keys",
     ["include/stxxl/bits/containers/priority_queue.h", "include/stxxl/bits/containers/pq_mergers.h", "include/stxxl/bits/containers/pq_ext_merger.h", "include/stxxl/bits/containers/pq_losertree.h", "include/stxxl/bits/containers/pq_helpers.h"],
     [("merger hierarchy", "include/stxxl/bits/containers/priority_queue.h"), ("external merger", "include/stxxl/bits/containers/pq_ext_merger.h")], observe=["top/pop/size"])
prop("C18", "parallel_priority_queue returns elements in order under every schedule",
     "For every history of single pushes, bulk pushes from several threads, bulk pops and limited bulk operations, the parallel priority queue returns a correct extract-min sequence: each element exactly once, in order, with exact sizes. This holds under every interleaving of the inserting threads and every memory configuration.",
     [S, H, C], "all interleavings of the OpenMP team in bulk operations, all histories, all RAM limits and heap counts, all I/O completion orders",
     "tests use one thread schedule and large RAM",
     ["include/stxxl/bits/containers/parallel_priority_queue.h"],
     [("insertion heaps, internal and external arrays, winner trees", "include/stxxl/bits/containers/parallel_priority_queue.h")], observe=["top/pop/bulk_pop/bulk_push/size"])
prop("C19", "External sorting yields a sorted permutation of its input",
     "sort, ksort and stable_ksort (stably) leave their range as a sorted permutation of what it held and touch nothing outside of it, for every length, alignment of the range in blocks, key distribution and permitted memory size, number of disks and allocation strategy.",
     [S, I, C], "all inputs and memory sizes, range ends inside blocks, all completion orders of run formation and merging, parallel and sequential merging",
     "tests sort random keys with plenty of memory over whole vectors",
     ["include/stxxl/bits/algo/sort.h", "include/stxxl/bits/algo/ksort.h", "include/stxxl/bits/algo/stable_ksort.h", "include/stxxl/bits/algo/async_schedule.h", "lib/algo/async_schedule.cpp", "include/stxxl/bits/algo/losertree.h"],
     [("run formation and recursive merging with prefetch schedule", "include/stxxl/bits/algo/sort.h, ksort.h")], observe=["contents of the range and its surroundings"])
prop("C20", "Sorting streams and sorter return a sorted permutation of what was pushed",
     "The stream sorters (runs creator, runs merger, sort, sorter container, runs from sorted sequences) return exactly the elements put in, in order, and again after a rewind, for every amount of memory and every length including empty and block-boundary lengths.",
     [S, I, C], "all inputs, memory sizes, numbers of runs (multi-level merging included), completion orders, rewinds and clears",
     "tests use one size and random keys",
     ["include/stxxl/bits/stream/sort_stream.h", "include/stxxl/bits/stream/sorted_runs.h", "include/stxxl/bits/containers/sorter.h"],
     [("runs_creator double buffering, merge tree", "include/stxxl/bits/stream/sort_stream.h")], observe=["stream of elements, size"])
prop("C21", "Scanning algorithms and streams visit every element once, in order",
     "for_each, generate, find, random_shuffle, copy/materialize and the streaming adaptors process exactly the elements of the range, each once and in order (a permutation for shuffling), write results to exactly the target range and leave everything else unchanged, for every range position and buffer count.",
     [S, I, C], "all range positions, lengths, buffer counts and completion orders",
     "tests scan whole vectors with default buffers",
     ["include/stxxl/bits/algo/scan.h", "include/stxxl/bits/algo/random_shuffle.h", "include/stxxl/bits/stream/stream.h", "include/stxxl/bits/stream/choose.h", "include/stxxl/bits/stream/unique.h"],
     [("buffered streams over block ranges", "include/stxxl/bits/algo/scan.h"), ("materialize", "include/stxxl/bits/stream/stream.h")], observe=["elements of source and target"])
prop("C22", "Parallel multiway merge and mergesort equal their sequential counterparts",
     "The parallel multiway merge (all splitting strategies and merge algorithms, stable and unstable, with and without sentinels) returns exactly the sorted prefix of the requested length of the union of its sequences and advances each sequence by exactly what was taken; parallel mergesort sorts. This holds for every number of threads and every interleaving of them, and the stable variants preserve order of equal elements.",
     [S, I, C], "all interleavings of the merging threads, thread counts, numbers and lengths of sequences (empty ones included), duplicates, requested lengths",
     "the test merges a few random sequences with the hardware's thread schedule",
     ["include/stxxl/bits/parallel/multiway_merge.h", "include/stxxl/bits/parallel/multiseq_selection.h", "include/stxxl/bits/parallel/multiway_mergesort.h", "include/stxxl/bits/parallel/losertree.h", "include/stxxl/bits/parallel/merge.h"],
     [("exact and sampling splitting", "include/stxxl/bits/parallel/multiway_merge.h"), ("multisequence selection", "include/stxxl/bits/parallel/multiseq_selection.h")], observe=["output sequence and advanced iterators"])
prop("C23", "Device errors during container and algorithm use are never silently absorbed",
     "When a transfer fails (I/O error, no space) while containers or external algorithms run, the operation that needs the data reports it by an exception (or the program terminates); an error met while a destructor cleans up may only be logged. The program never goes on to deliver wrong data, and it never hangs.",
     [FS, S, H], "all placements of device errors during vector, queue, stack, map, priority-queue and sorting workloads, in all completion orders",
     "tests never see a device error",
     ["include/stxxl/bits/mng/write_pool.h", "include/stxxl/bits/mng/buf_writer.h", "include/stxxl/bits/mng/block_prefetcher.h", "include/stxxl/bits/containers/vector.h", "include/stxxl/bits/stream/sort_stream.h", LIO + "request.cpp"],
     [("error rethrown on wait/poll", LIO + "request.cpp")], observe=["exceptions, termination, results"])
prop("C24", "Destroyed containers and finished algorithms return all external memory",
     "When containers are destroyed, cleared or shrunk and algorithms have finished, the external memory they used is free again: the block manager's accounting returns to its value before, and no request or buffer is left behind. This also holds after histories that swap, copy or clear containers.",
     [H, C, S], "all histories over all containers and algorithms, ended at any point",
     "tests never look at the accounting after use",
     ["include/stxxl/bits/mng/block_manager.h", "include/stxxl/bits/containers/vector.h", "include/stxxl/bits/containers/stack.h", "include/stxxl/bits/containers/sequence.h", "include/stxxl/bits/containers/priority_queue.h", "include/stxxl/bits/containers/btree/btree.h", "include/stxxl/bits/stream/sorted_runs.h"],
     [("destructors delete blocks", "include/stxxl/bits/containers/")], observe=["block_manager::get_current_allocation", "live heap"])
prop("C25", "File-backed vectors persist: flushed data survive destruction and process death",
     "A vector placed on a user's file keeps the file's existing contents, and everything in it is found by a later process that opens the file after the vector was flushed or destroyed, also if the process is killed right afterwards; the file then has the size of the contents. With synchronous files (SYNC) completed writes even survive power loss, and data flushed earlier is never damaged by a kill at any later point except in blocks being overwritten.",
     [CP, H, S, C], "all kill points in all histories of modifying, flushing, resizing and closing, on each file backend that has a file",
     "tests reopen a file in the same process after a clean close and never die in between",
     ["include/stxxl/bits/containers/vector.h", LIO + "ufs_file_base.cpp", LIO + "syscall_file.cpp", LIO + "mmap_file.cpp", LIO + "linuxaio_file.cpp"],
     [("flush and set_size on destruction", "include/stxxl/bits/containers/vector.h"), ("O_SYNC / msync", LIO + "ufs_file_base.cpp, mmap_file.cpp")], observe=["bytes and length of the file in the next process"])
prop("C26", "Orderly shutdown finishes all I/O and cleans up the disk files",
     "When the program ends, or a queue is destroyed, every request already submitted is still carried out exactly once, containers of static storage duration are intact and usable up to their destruction, all library threads end, all descriptors and AIO contexts of the library are released, and disk files are deleted or left in their configured size. It never hangs or crashes, whatever was in flight.",
     [S, H, C, CP], "all states of in-flight requests at the moment of shutdown, all backends and disk options, normal and early ends",
     "in tests nothing is in flight when the program ends",
     ["include/stxxl/bits/io/disk_queues.h", LIO + "request_queue_impl_worker.cpp", "lib/mng/block_manager.cpp", "lib/common/exithandler.cpp", LIO + "ufs_file_base.cpp", "include/stxxl/bits/singleton.h"],
     [("worker stop protocol", LIO + "request_queue_impl_worker.cpp"), ("exit handlers", "lib/common/exithandler.cpp")], observe=["files and threads left at exit"])
prop("C27", "Synchronisation primitives keep their contracts under every schedule",
     "Semaphores never admit more than their count and lose no wakeup, the on/off switch (one waiter per call) and the state object (all waiters) release waiters exactly when their state is reached, mutexes exclude, and shared reference counts free an object exactly once when the last reference goes. Blocking calls return within bounded time once their condition holds, spurious wakeups notwithstanding.",
     [S, H, FS], "all interleavings of several threads on each primitive, with spurious wakeups",
     "there are no concurrency tests of the primitives at all",
     ["include/stxxl/bits/common/semaphore.h", "include/stxxl/bits/common/onoff_switch.h", "include/stxxl/bits/common/state.h", "include/stxxl/bits/common/mutex.h", "include/stxxl/bits/common/counting_ptr.h", "include/stxxl/bits/common/condition_variable.h"],
     [("condition variables", "include/stxxl/bits/common/condition_variable.h")], observe=["blocking and returning of calls"])
prop("C28", "External matrices compute the same result as in-memory arithmetic",
     "Addition, subtraction, scaling, transposition, multiplication (every algorithm) and element iteration on external matrices give exactly the result of in-memory arithmetic on integers, for all shapes, block orders, memory limits and scheduling algorithms, and operands are unchanged.",
     [H, C, S], "all operation histories, shapes not divisible by the block size, memory limits, multiplication and scheduling algorithms, completion orders",
     "the test multiplies a few square matrices with default memory",
     ["include/stxxl/bits/containers/matrix.h", "include/stxxl/bits/containers/matrix_arithmetic.h", "include/stxxl/bits/mng/block_scheduler.h"],
     [("swappable blocks and recursive multiplication", "include/stxxl/bits/containers/matrix_arithmetic.h")], observe=["matrix elements"])
prop("C29", "Configuration and command-line parsing accept exactly the documented syntax",
     "Parsing a disk configuration line, a size with unit suffix or a command line yields exactly the documented values, and anything malformed is rejected with an error rather than misread.",
     [I], "all strings", "tests try a few dozen strings",
     ["lib/mng/config.cpp", "lib/common/utils.cpp", "lib/common/cmdline.cpp"], [("parse_line", "lib/mng/config.cpp")], observe=["parsed values"],
     na="a pure function of a string: no concurrency, time, I/O, randomness or failure takes part, so there is no schedule or fault for a simulator to decide; input generation alone would be a different technique")
prop("C30", "Extended integer types behave as integers of their width",
     "uint40/uint48 arithmetic, comparison and conversion agree with 64-bit arithmetic modulo their width.",
     [I], "all values", "tests check selected values",
     ["include/stxxl/bits/common/uint_types.h"], [("low/high parts with carry", "include/stxxl/bits/common/uint_types.h")], observe=["values"],
     na="pure arithmetic on values: nothing nondeterministic exists to simulate")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if k != "na"}) + "\n")
    checks, na = [], []
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        if p["na"]:
            na.append(dict(property=p["id"], reason=p["na"]))
        elif p["id"] in CHECKS:
            c = CHECKS[p["id"]]
            checks.append(dict(property=p["id"], quick_cmd="VERIF_TIER=quick python3 bin/check.py " + p["id"],
                               thorough_cmd="VERIF_TIER=thorough python3 bin/check.py " + p["id"],
                               technique="deterministic simulation with fault injection (seeded schedule and fault search over the real code)",
                               level="exploration",
                               level_note="Seeded search, no exhaustiveness: passes mean no violation on the explored runs. Oracle: " + c["oracle"] +
                               ". Trusts the simulated OS (threads, disk, clock, AIO, malloc, OpenMP) and sequentially consistent memory. " + c.get("note", "")))
        else:
            na.append(dict(property=p["id"], reason="check not built yet"))
    m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na,
             notes="No hooks in /repo: every seam is interposed at link time (pthread, libc file calls, AIO system calls, clock, malloc, libgomp) and by compiler call-outs used as preemption points. Replay: build/bin-*/<harness> --replay <file>.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    design(checks)


def design(checks):
    """the generated parts of DESIGN.md"""
    import glob
    out = []
    for p in P:
        if p["id"] not in CHECKS:
            if not p["na"]:
                out.append("* **%s** %s: not built yet." % (p["id"], p["title"]))
            continue
        c = CHECKS[p["id"]]
        units = ", ".join("`%s` (checks/%s.cpp%s; %d/%d runs)" % (u["name"], u["harness"], " " + " ".join(u["defs"]) if u.get("defs") else "", u["runs"][0], u["runs"][1]) for u in c["units"])
        out.append("* **%s** %s.\n  *Searched:* %s.\n  *Oracle:* %s.\n  *Why tests cannot:* %s.%s\n  *Units (quick/thorough):* %s." %
                   (p["id"], p["title"], p["quantifier"]["text"], c["oracle"], p["why_tests_cant"], "\n  *Note:* " + c["note"] if c.get("note") else "", units))
    rows = ["| id | property | needs | breaks | found by |", "|---|---|---|---|---|"]
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded/*/meta.json"))):
        m = json.load(open(f))
        rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"], m.get("found_by", "?")))
    f = os.path.join(ROOT, "DESIGN.md")
    s = open(f).read()
    for name, text in (("props", "\n".join(out)), ("seeded", "\n".join(rows))):
        a, b = s.index("<!-- %s -->" % name), s.index("<!-- /%s -->" % name)
        s = s[:a] + "<!-- %s -->\n%s\n" % (name, text) + s[b:]
    open(f, "w").write(s)


if __name__ == "__main__":
    main()
