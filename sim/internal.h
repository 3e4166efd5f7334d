#ifndef VERIF_SIM_INTERNAL_H
#define VERIF_SIM_INTERNAL_H
#include "sim.h"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <sys/types.h>

namespace sim {

static const uintptr_t HOST_BASE = 0x500000000000ull, META_BASE = 0x520000000000ull;
static const uintptr_t SIM_BASE = 0x600000000000ull;
static const uintptr_t STACK_BASE = 0x610000000000ull;
static const uintptr_t VFS_BASE = 0x620000000000ull, VFS_DATA = 0x630000000000ull;
static const size_t ARENA_SIZE = 16ull << 30;
static const size_t STACK_SLOT = 1ull << 20;
static const int MAX_FIBERS = 256;

enum Status { ST_NONE = 0, ST_OK, ST_EARLY, ST_VIOLATION, ST_KILLED, ST_INTERNAL };

static const int MAX_DEV = 1 << 20, MAX_FREC = 1 << 14, MAX_PROBE = 160;

struct Result
{
    int status;
    char cls[256];
    char msg[2048];
    u64 step, sync_steps, switches, clock_us, nops;
    u64 sched_hash, log_hash, lock_hash;
    unsigned long faults[F_NUM];
    unsigned long fault_opp[F_NUM];
    unsigned nfibers;
    int ndev; int nfrec; int nprobe;
    bool overflow;
    int phase_done;
    u64 cur_step_at_kill;
    struct { char name[48]; unsigned long n; } probes[MAX_PROBE];
    FaultRec frec[MAX_FREC];
    char scratch[1 << 18];
    DevRec dev[MAX_DEV];
};

extern Result* R;             // shared with the driver
extern bool g_insim;          // simulated fibers are executing
extern bool g_alloc_sim;      // malloc goes to the simulated arena
extern int g_verbose;
extern const Case* g_case;

enum FState { FS_FREE = 0, FS_RUN, FS_BLOCK, FS_TIMED, FS_DONE };
enum WaitKind { W_NONE = 0, W_MUTEX, W_COND, W_JOIN, W_IO, W_AIO, W_GUARD, W_BAR, W_SLEEP, W_CRIT };

struct Team;
struct Fiber
{
    int id;
    void* sp;
    FState st;
    WaitKind wk;
    const void* wobj;
    u64 deadline;          // for FS_TIMED / blocked with timeout (0 = none)
    bool woken;
    int saved_errno;
    void* eh[2];
    void* (*fn)(void*);
    void* arg;
    void* ret;
    bool detached, joined;
    u64 lastrun;
    u64 prio;
    int nopreempt;
    const char* name;
    Team* team; int tnum; int single_gen; // OpenMP
    std::function<void()>* func;
};
extern Fiber g_fib[MAX_FIBERS];
extern int g_nfib;
extern Fiber* g_cur;
extern u64 g_step, g_mem_stop;
extern u64 g_clock;            // ns
extern int g_nopreempt_global;

enum PK { P_SYNC = 1, P_LOCK, P_UNLOCK, P_SIGNAL, P_IO, P_YIELD, P_MEM, P_EXIT };
void sched_point(PK k);
void block(WaitKind k, const void* obj, u64 deadline_ns = 0); // returns when woken (or deadline)
int wake_all(WaitKind k, const void* obj);
int wake_one(WaitKind k, const void* obj);                    // scheduler-chosen
int count_waiters(WaitKind k, const void* obj);
int fiber_create(void* (*fn)(void*), void* arg, const char* name);
void* fiber_join(int id);
void io_sleep(u64 ns);
u64 io_latency(int kind);
void mem_slow();
void loghash(u64 a, u64 b);
void trace(const char* fmt, ...) __attribute__ ((format(printf, 1, 2)));

// timed device events
void event_at(u64 ns, void (* fn)(void*, u64), void* p, u64 arg);

// alloc
void alloc_sim_reset();
bool in_sim_arena(const void* p);

// vfs
void vfs_init_shared();     // once per run (before phases)
void vfs_init_phase();      // once per process phase
void vfs_dump();

void child_main_setup(Result* r, const Case* c, int phase, bool search);
[[noreturn]] void child_run();

void run_atexit();
extern u64 g_seed;
void die_result(int status, const char* cls, const char* msg);

// raw syscalls
long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0);
}
#endif
