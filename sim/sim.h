// Deterministic simulator for stxxl: public interface used by the check harnesses.
// Simulated threads are fibers of one OS thread; pthread, file system, AIO, clock, malloc,
// OpenMP runtime and static-init guards are all interposed (see core.cpp, vfs.cpp, alloc.cpp, gomp.cpp).
#ifndef VERIF_SIM_H
#define VERIF_SIM_H
#include <cstddef>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace sim {

typedef unsigned long long u64;

static inline u64 mix64(u64 z)
{
    z += 0x9E3779B97F4A7C15ull;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline u64 hash2(u64 a, u64 b) { return mix64(a ^ mix64(b)); }
static inline u64 hash3(u64 a, u64 b, u64 c) { return mix64(hash2(a, b) ^ mix64(c + 0x1234567)); }

struct Rng
{
    u64 s;
    explicit Rng(u64 seed = 1) : s(mix64(seed)) { }
    u64 next() { s += 0x9E3779B97F4A7C15ull; return mix64(s); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    long range(long lo, long hi) { return lo + (long)below((u64)(hi - lo + 1)); } // inclusive
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};

struct Op
{
    int code; long a[6];
    Op(int c = 0, long a0 = 0, long a1 = 0, long a2 = 0, long a3 = 0, long a4 = 0, long a5 = 0)
        : code(c) { a[0] = a0, a[1] = a1, a[2] = a2, a[3] = a3, a[4] = a4, a[5] = a5; }
};

// fault kinds the simulated environment can inject
enum Fault {
    F_SPURIOUS = 0,  // spurious condition-variable wakeup
    F_EINTR,         // EINTR from read/write
    F_EINTR_AIO,     // EINTR from io_getevents
    F_SHORT_READ, F_SHORT_WRITE,
    F_EIO_READ, F_EIO_WRITE,
    F_ENOSPC,        // write fails, disk full
    F_OPEN_FAIL, F_ODIRECT_EINVAL,
    F_TRUNC_FAIL,    // ftruncate fails
    F_MMAP_FAIL,
    F_AIO_SUBMIT_EAGAIN, F_AIO_SUBMIT_PARTIAL,
    F_AIO_EIO, F_AIO_SHORT, F_AIO_SUBMIT_ERR,
    F_LOCK_FAIL,
    F_THREAD_FAIL,   // pthread_create fails
    F_NOMEM,         // malloc returns NULL (only in harness-enabled windows)
    F_STALL,         // device stalls for a long simulated time
    F_CLOCK_JUMP,    // wall clock jumps (forward or backward)
    F_KILL,          // process killed at this point (phase API)
    F_OMP_FEWER,     // the OpenMP runtime starts fewer threads than requested
    F_USER1, F_USER2, F_USER3, F_USER4, // harness-level faults (throwing comparator, failing handler, ...)
    F_NUM
};
extern const char* const fault_names[F_NUM];

struct FaultRec { int kind; unsigned nth; u64 param; };
struct DevRec { u64 step; int value; };

struct Case
{
    std::map<std::string, long> cfg;
    std::vector<Op> ops;
    long get(const char* k, long d = 0) const; // does not count as simulated steps
    void set(const char* k, long v) { cfg[k] = v; }
};

// ---- what a check harness provides ----
struct Harness
{
    virtual const char * name() = 0;
    virtual void generate(Rng& r, Case& c, bool thorough) = 0; // cfg + ops, a pure function of r
    virtual void run(const Case& c) = 0;                       // executed as simulated thread 0
    virtual std::string describe(const Op& o) { (void)o; return ""; }
    // class of a std::terminate()/exception that is an accepted fail-stop under injected errors
    virtual bool accept_terminate(const Case&, const char* what) { (void)what; return false; }
    // a violation (crash, assertion, ...) that is accepted in this run: the name of the outcome, else NULL
    virtual const char * accept_violation(const Case&, const char* cls) { (void)cls; return NULL; }
    // number of phases (process lifetimes); phase p runs in its own process with the surviving disk
    virtual int phases(const Case&) { return 1; }
    virtual void run_phase(const Case& c, int phase) { (void)phase; run(c); }
    // after the exit handlers of the program have run
    virtual void after_exit(const Case&, int phase) { (void)phase; }
    virtual ~Harness() { }
};
Harness * harness();   // defined by the check

// default fault/schedule configuration helpers (write "s.*" and "f.*" keys)
void gen_schedule(Rng& r, Case& c, bool mem_preempt);
void gen_fault(Case& c, int kind, long rate_per_10000);

// ---- reporting ----
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__ ((format(printf, 2, 3)));
[[noreturn]] void finish(const char* outcome);         // legitimate early end (e.g. reported io_error)
unsigned long client_throws(const char** type = NULL); // exceptions thrown by the library in client threads
void probe(const char* name, unsigned long n = 1);     // coverage probe counter
void note(const char* fmt, ...) __attribute__ ((format(printf, 1, 2))); // event log line (hashed)
#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violation(cls, __VA_ARGS__); } while (0)

// ---- control ----
u64  seq();                    // global event sequence number (advances at every call)
u64  now_us();                 // simulated time
int  phase();
bool active();
void yield();                  // sched point, lets others run
void point();                  // plain preemption point
void sleep_us(u64 us);
int  spawn(std::function<void()> f, const char* name);
void join(int fid);
int  self();
unsigned choose(unsigned n);   // scheduler-owned choice in [0,n)
bool fault(int kind, u64* param = NULL); // one opportunity for this kind of fault
void faults_on(bool on);       // all fault kinds
bool faults_are_on();
unsigned long fault_count(int kind);
unsigned long fault_total();   // all fired faults so far in this run
void kill_point();             // opportunity for F_KILL
[[noreturn]] void kill_now();
struct NoPreempt { NoPreempt(); ~NoPreempt(); }; // no memory-access preemption inside
extern unsigned long g_sync_steps;
void set_step_limit(unsigned long sync_steps);
// progress watchdog after faults stop: if not finished within n more sync points -> liveness violation
void set_exit_ok_threads(bool ok);

// ---- simulated disk ----
struct VStat { bool exists; u64 size; };
VStat vfs_stat(const char* path);
size_t vfs_read(const char* path, u64 off, void* buf, size_t len);
void vfs_poke(const char* path, u64 off, const void* buf, size_t len); // create/modify directly
int  vfs_list(std::vector<std::string>& out);
int  vfs_open_fds();
int  vfs_aio_contexts();                // io_setup() without io_destroy()
void vfs_set_capacity(u64 bytes);       // total bytes, 0 = unlimited
void vfs_power_loss(u64 rnd);           // drop non-durable data
void vfs_track_durability(bool on);
// errors returned by the device for [off,off+len) of path since sequence number `since`
int  vfs_io_errors(const char* path, u64 off, u64 len, bool write, u64 since);
// hook: called at the instant data reaches/leaves the device
typedef void (* io_observer)(const char* path, bool write, u64 off, u64 len, const void* data);
void vfs_set_observer(io_observer o);

// ---- memory ----
const char * mem_bad(const void* p, size_t len); // NULL if fine, else reason
u64  mem_live_bytes();         // bytes live in simulated heap
u64  mem_live_objs();
struct HostScope { bool saved; HostScope(); ~HostScope(); }; // allocations go to host arena
void* shared_scratch(size_t* len); // memory that survives phases of one run

// ---- OpenMP (gomp.cpp) ----
void omp_set_max(int n);       // what omp_get_max_threads() reports

} // namespace sim
#endif
