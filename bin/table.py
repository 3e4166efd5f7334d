"""property -> simulation units"""
IO_REAL = ["lib/io (requests, queues, files, disk_queues, iostats)", "lib/common", "common/ synchronisation headers"]


def io(mode, name, runs=(120000, 3000000)):
    return dict(name=name, harness="io", defs=["-DMODE=%d" % mode], runs=runs)

MNG_REAL = IO_REAL + ["lib/mng, mng/ (block_manager, disk_allocator, config)"]


def U(harness, name, mode=0, runs=(100000, 2500000), defs=(), **kw):
    return dict(name=name, harness=harness, defs=(["-DMODE=%d" % mode] if mode else []) + list(defs), runs=runs, **kw)


CONT_REAL = MNG_REAL + ["include/stxxl/bits/containers, algo, stream, parallel (templates under test)"]
ERR = dict(arg=1)   # device errors: fail-stop
ACC = dict(arg=2)   # repeated: external memory and heap
CONT = [("vec", "vec", ()), ("stacks", "stacks", ()), ("map", "map", ()), ("umap", "umap", ()), ("pq", "pq", ()), ("ppq", "ppq", ("-DNDEBUG",)), ("sort", "sort", ()), ("ssort", "ssort", ()), ("scan", "scan", ()), ("sched", "sched", ()), ("matrix", "matrix", ())]  # harnesses that also serve C23 and C24


SEQPQ = ["-DSTXXL_PARALLEL_PQ_MULTIWAY_MERGE_INTERNAL=0", "-DSTXXL_PARALLEL_PQ_MULTIWAY_MERGE_EXTERNAL=0", "-DSTXXL_PARALLEL_PQ_MULTIWAY_MERGE_DELETE_BUFFER=0"]

CHECKS = {
    "C01": dict(units=[io(1, "completion")], real=IO_REAL,
                oracle="per request: handler ran exactly once before wait/poll reported completion, never afterwards; all waiters return; file reference count returns to 0; no deadlock or livelock within a step bound under a fair schedule after faults stop"),
    "C02": dict(units=[io(2, "cancel")], real=IO_REAL,
                oracle="cancel() returning true: no handler, buffer untouched, no transfer; at most one successful cancel; false: request completes normally"),
    "C03": dict(units=[io(3, "content")], real=IO_REAL,
                oracle="per-block version model: every read returns the last completed write of the block; final content re-read through the API and compared with the simulated disk"),
    "C04": dict(units=[io(4, "partial")], real=IO_REAL,
                oracle="same version model while the kernel returns short reads and writes"),
    "C05": dict(units=[io(5, "errors")], real=IO_REAL,
                oracle="ledger of errors returned by the simulated device: a request reports io_error iff the device failed it; neighbours and later requests succeed; data model as in C03"),
    "C06": dict(units=[io(6, "waitany")], real=IO_REAL,
                oracle="wait_any returns a request that is complete, poll_any is true only for a complete request; handler/content oracles; bounded progress"),
    "C07": dict(units=[io(7, "stats")], real=IO_REAL,
                oracle="numbers and volumes reported by stats equal the completed transfers exactly; times non-negative and bounded"),
    "C08": dict(units=[U("mng", "blocks", 8)], real=MNG_REAL,
                oracle="interval model of live blocks (overlap, alignment, inside the disk) checked at every allocation; every owned block returns the data its owner wrote"),
    "C09": dict(units=[U("mng", "accounting", 9)], real=MNG_REAL,
                oracle="exact byte accounting against the model after every step (single thread) or at quiescence (several threads), also after failed allocations and rejected double frees; after freeing everything the whole disk is allocatable as one contiguous range"),
    "C10": dict(units=[U("pools", "pools", 10, runs=(100000, 3000000))], real=MNG_REAL + ["mng/{write,prefetch,read_write}_pool.h, typed_block.h"],
                oracle="version model per block: every read through the pool and every direct read after waiting, and all blocks after destroying the pool, hold the latest version; exact pool sizes; no buffer lent twice"),
    "C11": dict(units=[U("streams", "streams", runs=(80000, 2000000))], real=MNG_REAL + ["mng/{buf_istream,buf_istream_reverse,buf_ostream,buf_writer,block_prefetcher}.h, lib/algo/async_schedule.cpp"],
                oracle="element-exact model of every block: forward, reverse and prefetched reading deliver the model sequence, direct reads after flush/destruction find all elements on disk; schedules are permutations; bounded progress"),
    "C13": dict(units=[U("vec", "vector", runs=(120000, 3000000))], real=CONT_REAL,
                oracle="reference array with per-element known/unknown state; every read through every access path, comparison operators, sizes and capacities; after flush every known element is read back from its block on disk; file-backed vectors: file length and contents after destruction"),
    "C14": dict(units=[U("stacks", "stacks", runs=(150000, 4000000))], real=CONT_REAL,
                oracle="std::deque model with known/unknown items: both ends, sizes, iteration, forward/reverse streams, random access and comparison; own and shared pools; blocks of other users keep their contents"),
}
CHECKS["C15"] = dict(units=[U("map", "map", runs=(60000, 2000000))], real=CONT_REAL,
                     oracle="std::map model: every lookup (const and not), iteration in both directions, held iterators across inserts, erases, splits, fusions and swap, bulk construction with all fill factors, comparisons; caches down to 3 nodes")
CHECKS["C16"] = dict(units=[U("umap", "umap", runs=(45000, 1000000))], real=CONT_REAL,
                oracle="ordered-map model: results of every operation, size, contents by traversal; live iterators (plain and const) address their element across insertions, rehashing, cache eviction and swap; a traversal with modifications in between visits what is there all the time exactly once")
CHECKS["C17"] = dict(units=[U("pq", "pq", runs=(50000, 2000000)), U("pq", "pq-loser-trees", runs=(30000, 1500000), defs=SEQPQ)], real=CONT_REAL,
                oracle="multiset model: every top is a maximal element, every popped element was pushed and not yet popped, exact sizes, everything comes out in the end; own and shared pools; merging in parallel (simulated OpenMP, also with fewer threads than requested) and by loser trees")
CHECKS["C18"] = dict(units=[U("ppq", "ppq", runs=(130000, 6000000), defs=["-DNDEBUG"])], real=CONT_REAL,
                oracle="multiset model: every top and every element delivered in bulk is the best one present, pushed before and not yet delivered; completeness of limited bulk pops; sizes; no other user's block touched; pushing by simulated OpenMP teams, which are also granted fewer threads than requested")
CHECKS["C22"] = dict(units=[U("merge", "merge", runs=(200000, 6000000))], real=["include/stxxl/bits/parallel (multiway_merge, losertree, multiseq_selection, multiway_mergesort) on simulated OpenMP threads"],
                oracle="std::stable_sort of the tagged elements: exact prefix, stability, exact advance of every input sequence, inputs intact, split positions of multiseq_partition, results of multiseq_selection")
CHECKS["C19"] = dict(units=[U("sort", "sort", runs=(60000, 2000000)), U("sort", "sort-radix", runs=(60000, 2000000), defs=["-DSTXXL_L2_SIZE=256"])], real=CONT_REAL,
                oracle="after every sort: range sorted, permutation of its former elements, (stable_ksort) equal to std::stable_sort; every element outside of the range unchanged; external memory as before; file-backed vectors read back from the re-opened file")
CHECKS["C20"] = dict(units=[U("ssort", "ssort", runs=(60000, 2000000))], real=CONT_REAL,
                oracle="multiset model of what was pushed: exact sizes, ordered output, nothing lost or twice, again after rewind/second merger; input streams read exactly to their end; blocks of other users (allocated right after clear/destruction) keep their contents")
CHECKS["C21"] = dict(units=[U("scan", "scan", runs=(80000, 2500000))], real=CONT_REAL,
                oracle="reference array with known/unknown elements: every call of a functor/generator and every stream element is compared with the element due, exact number of visits, end positions, everything outside of the range unchanged; the file of file-backed vectors afterwards")
CHECKS["C12"] = dict(units=[U("sched", "sched", runs=(120000, 4000000))], real=MNG_REAL + ["mng/block_scheduler.h (online LRU, simulation, offline LFD, offline LRU with prefetching)"],
                oracle="per-block version model through random data-oblivious programs: contents at every acquire, read and release, of extracted external blocks, default contents of uninitialised blocks, is_initialized also during the simulation run; internal blocks distinct, stable and never more than the limit; the same program again with the same prediction, and beyond the prediction")
CHECKS["C28"] = dict(units=[U("matrix", "matrix", runs=(12000, 600000)), U("matrix", "matrix-one-level", runs=(12000, 600000), defs=["-DSTXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE=1", "-DSTXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS=2"])], real=CONT_REAL + ["mng/block_scheduler.h"],
                oracle="plain arrays of integers modulo 2^64 (a ring: every association of sums gives the same result): every element after every operation by row- and column-major iteration forwards and backwards, operands unchanged, elements with redundancy (torn or stale blocks)")
CHECKS["C27"] = dict(units=[U("sync", "sync", runs=(150000, 6000000))], real=["common/{semaphore,onoff_switch,state,mutex,condition_variable,counting_ptr}.h on simulated pthreads"],
                oracle="linearizability of the recorded call history (invocations, responses, results) against a sequential model of each primitive; mutual exclusion and lost updates; FIFO exactly-once hand-over through a bounded buffer; reference counts equal to the pointers there are, no object freed early, twice or never; no blocked call left over (deadlock) once its condition holds")
CHECKS["C25"] = dict(units=[U("persist", "persist", runs=(80000, 2500000))], real=CONT_REAL + ["containers/vector.h over io/{syscall,linuxaio,mmap}_file, several process lifetimes on one simulated file system"],
                oracle="the file itself, read byte for byte between process lifetimes: after clean destruction exactly size() elements; after a kill (between steps, at a write or truncation, within one) and, for files opened with SYNC, after a power loss, every element as of the last flush or as written since (only an element being overwritten may be torn); the next process, also a read-only one, finds the same elements through the vector")
CHECKS["C26"] = dict(units=[U("shutdown", "shutdown", runs=(100000, 4000000))], real=CONT_REAL + ["lib/common/exithandler.cpp", "destructors of every singleton, run by the process' real exit handlers in registration order inside the simulation"],
                     oracle="counted completion handlers, the contents read back from the simulated file system after the last exit handler, open descriptors, AIO contexts and threads left, disk files as configured; static containers verify their contents in their destructors; the step limit decides hanging")
CHECKS["C23"] = dict(units=[U(h, "errors-" + n, defs=d, runs=(60000, 1000000), **ERR) for h, n, d in CONT], real=CONT_REAL,
                     oracle="device errors at every kind of transfer: the run must end in io_error/bad_ext_alloc reported to the program, in termination, or deliver exactly the data of the reference model; no hang, no error without a device error")
CHECKS["C24"] = dict(units=[U(h, "account-" + n, defs=d, runs=(25000, 500000), **ACC) for h, n, d in CONT], real=CONT_REAL,
                     oracle="block_manager accounting is 0 after every round; heap objects do not grow from repetition to repetition of the same history")
