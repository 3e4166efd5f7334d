// Scheduler, virtual clock, faults, pthread interposition, memory-access preemption points.
#include "internal.h"
#include <cstdarg>
#include <cstdlib>
#include <cxxabi.h>
#include <dlfcn.h>
#include <exception>
#include <link.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <typeinfo>
#include <ucontext.h>
#include <unistd.h>

namespace sim {

const char* const fault_names[F_NUM] = {
    "spurious_wakeup", "eintr", "eintr_getevents", "short_read", "short_write", "eio_read", "eio_write", "enospc", "open_fail",
    "odirect_einval", "ftruncate_fail", "mmap_fail", "aio_submit_eagain", "aio_submit_partial", "aio_eio",
    "aio_short", "aio_submit_error", "lock_fail", "pthread_create_fail", "nomem", "device_stall", "clock_jump", "kill", "omp_fewer_threads",
    "user1", "user2", "user3", "user4"
};

Result* R = NULL;
bool g_insim = false;
int g_verbose = 0;
const Case* g_case = NULL;
Fiber g_fib[MAX_FIBERS];
int g_nfib = 0;
Fiber* g_cur = NULL;
u64 g_step = 0, g_mem_stop = ~0ull;
u64 g_clock = 0;
unsigned long g_sync_steps = 0;
int g_nopreempt_global = 0;
u64 g_seed = 0;
bool g_tear_copies = true;

static bool g_search = true;
static bool g_faults_on = false;
static u64 g_fseed, g_latseed, g_latscale, g_latn;
static long g_frate[F_NUM];
static unsigned long g_fburst[F_NUM];
static unsigned g_fcnt[F_NUM];
static unsigned long g_ffired[F_NUM], g_ftotal;
static FaultRec* g_frec_in = NULL; static int g_nfrec_in = 0;
static DevRec* g_dev_in = NULL; static int g_ndev_in = 0, g_dev_pos = 0;
static Rng g_srng(1);
static int g_mode; static long g_preempt, g_memgap; static u64 g_pctlow, g_pctgap, g_next_change;
static unsigned long g_step_limit = 400000, g_fair_after = 0;
static bool g_fair = false;
static u64 g_seqno = 0;
static u64 g_lastrun_ctr = 0;
static int g_phase = 0;
static u64 g_quantum = 0;
static unsigned long g_same_run = 0;

long Case::get(const char* k, long d) const
{
    // the shape of the tree depends on its history, so lookups must not count as steps
    u64 s = g_step, m = g_mem_stop; g_mem_stop = ~0ull;
    bool a = g_alloc_sim; g_alloc_sim = false;
    long v = d;
    { std::map<std::string, long>::const_iterator i = cfg.find(k); if (i != cfg.end()) v = i->second; }
    g_alloc_sim = a; g_step = s; g_mem_stop = m;
    return v;
}

// ---------------------------------------------------------------- events
struct Ev { u64 t, s; void (* fn)(void*, u64); void* p; u64 arg; };
static Ev g_ev[65536]; static int g_nev = 0; static u64 g_evseq = 0;
static bool ev_less(const Ev& a, const Ev& b) { return a.t != b.t ? a.t < b.t : a.s < b.s; }
void event_at(u64 ns, void (* fn)(void*, u64), void* p, u64 arg)
{
    if (g_nev >= 65536) die_result(ST_INTERNAL, "internal", "event heap full");
    int i = g_nev++;
    Ev e = { ns, g_evseq++, fn, p, arg };
    while (i > 0 && ev_less(e, g_ev[(i - 1) / 2])) { g_ev[i] = g_ev[(i - 1) / 2]; i = (i - 1) / 2; }
    g_ev[i] = e;
}
static void ev_pop(Ev& out)
{
    out = g_ev[0];
    Ev e = g_ev[--g_nev];
    int i = 0;
    for ( ; ; ) {
        int c = 2 * i + 1;
        if (c >= g_nev) break;
        if (c + 1 < g_nev && ev_less(g_ev[c + 1], g_ev[c])) ++c;
        if (!ev_less(g_ev[c], e)) break;
        g_ev[i] = g_ev[c]; i = c;
    }
    if (g_nev) g_ev[i] = e;
}
static void fire_events()
{
    while (g_nev && g_ev[0].t <= g_clock) { Ev e; ev_pop(e); e.fn(e.p, e.arg); }
    for (int i = 0; i < g_nfib; ++i) {
        Fiber& f = g_fib[i];
        if ((f.st == FS_TIMED || f.st == FS_BLOCK) && f.deadline && f.deadline <= g_clock) { f.st = FS_RUN; f.deadline = 0; }
    }
}
static bool advance_clock()
{
    u64 t = ~0ull;
    if (g_nev) t = g_ev[0].t;
    for (int i = 0; i < g_nfib; ++i) {
        Fiber& f = g_fib[i];
        if ((f.st == FS_TIMED || f.st == FS_BLOCK) && f.deadline && f.deadline < t) t = f.deadline;
    }
    if (t == ~0ull) return false;
    if (t > g_clock) g_clock = t;
    fire_events();
    return true;
}

// ---------------------------------------------------------------- logging
void loghash(u64 a, u64 b) { R->log_hash = hash3(R->log_hash, a, b); }
static char g_trbuf[512];
void trace(const char* fmt, ...)
{
    if (!g_verbose) return;
    va_list ap; va_start(ap, fmt);
    int n = snprintf(g_trbuf, sizeof g_trbuf, "[%8llu %9llu.%03lluus T%d] ", g_step, g_clock / 1000, g_clock % 1000, g_cur ? g_cur->id : -1);
    n += vsnprintf(g_trbuf + n, sizeof(g_trbuf) - n - 2, fmt, ap);
    va_end(ap);
    if (n > (int)sizeof(g_trbuf) - 2) n = sizeof(g_trbuf) - 2;
    g_trbuf[n++] = '\n';
    rsys(SYS_write, 2, (long)g_trbuf, n);
}
void note(const char* fmt, ...)
{
    char b[400];
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    u64 h = 1469598103934665603ull;
    for (char* p = b; *p; ++p) h = (h ^ (unsigned char)*p) * 1099511628211ull;
    loghash(h, g_step);
    trace("%s", b);
}
void probe(const char* name, unsigned long n)
{
    for (int i = 0; i < R->nprobe; ++i)
        if (!strcmp(R->probes[i].name, name)) { R->probes[i].n += n; return; }
    if (R->nprobe < MAX_PROBE) {
        strncpy(R->probes[R->nprobe].name, name, 47);
        R->probes[R->nprobe].n = n;
        R->nprobe++;
    }
}

static void fill_result()
{
    R->step = g_step; R->sync_steps = g_sync_steps; R->clock_us = g_clock / 1000;
    R->nfibers = (unsigned)g_nfib;
    for (int i = 0; i < F_NUM; ++i) R->faults[i] += g_ffired[i], R->fault_opp[i] += g_fcnt[i];
}
void die_result(int status, const char* cls, const char* msg)
{
    g_insim = false;
    if (status == ST_VIOLATION && R->status == ST_NONE) {
        HostScope h;
        if (const char* acc = harness()->accept_violation(*g_case, cls)) { status = ST_EARLY; cls = acc; }
    }
    if (R->status == ST_NONE) {
        R->status = status;
        strncpy(R->cls, cls, sizeof(R->cls) - 1);
        strncpy(R->msg, msg, sizeof(R->msg) - 1);
        fill_result();
    }
    if (g_verbose) {
        char b[2600];
        int n = snprintf(b, sizeof b, "==> status=%d class=%s\n    %s\n", status, cls, msg);
        rsys(SYS_write, 2, (long)b, n);
        for (int i = 0; i < g_nfib; ++i) {
            Fiber& f = g_fib[i];
            n = snprintf(b, sizeof b, "    T%d %s state=%d wait=%d obj=%p\n", i, f.name, f.st, f.wk, f.wobj);
            rsys(SYS_write, 2, (long)b, n);
        }
    }
    rsys(SYS_exit_group, 0);
    __builtin_unreachable();
}
void violation(const char* cls, const char* fmt, ...)
{
    char b[2000];
    g_insim = false;
    va_list ap; va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    die_result(ST_VIOLATION, cls, b);
    __builtin_unreachable();
}
static unsigned long g_client_throws; static char g_client_throw[100];
unsigned long client_throws(const char** t) { if (t) *t = g_client_throw; return g_client_throws; }
void finish(const char* outcome) { die_result(ST_EARLY, outcome, ""); __builtin_unreachable(); }

// ---------------------------------------------------------------- fibers
extern "C" void sim_switch(void** save_sp, void* load_sp);
__asm__ (
    ".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
    "  pushq %rbp\n pushq %rbx\n pushq %r12\n pushq %r13\n pushq %r14\n pushq %r15\n"
    "  subq $8,%rsp\n stmxcsr (%rsp)\n fnstcw 4(%rsp)\n"
    "  movq %rsp,(%rdi)\n movq %rsi,%rsp\n"
    "  ldmxcsr (%rsp)\n fldcw 4(%rsp)\n addq $8,%rsp\n"
    "  popq %r15\n popq %r14\n popq %r13\n popq %r12\n popq %rbx\n popq %rbp\n ret\n"
    ".size sim_switch,.-sim_switch\n"
    ".globl sim_fiber_start\nsim_fiber_start:\n  xorl %ebp,%ebp\n  call sim_fiber_main\n  ud2\n");
extern "C" void sim_fiber_start();

extern "C" void __cxa_get_globals_dummy();
static void save_ctx(Fiber* f)
{
    f->saved_errno = errno;
    memcpy(f->eh, abi::__cxa_get_globals(), 16);
}
static void load_ctx(Fiber* f)
{
    errno = f->saved_errno;
    memcpy(abi::__cxa_get_globals(), f->eh, 16);
}

static void switch_to(int id)
{
    Fiber* from = g_cur, * to = &g_fib[id];
    if (from == to) return;
    from->lastrun = ++g_lastrun_ctr; // whether or not it passed decision points before: a replay passes fewer
    to->lastrun = ++g_lastrun_ctr;
    R->switches++;
    R->sched_hash = hash3(R->sched_hash, (u64)id, (u64)from->id);
    g_same_run = 0;
    save_ctx(from);
    g_cur = to;
    load_ctx(to);
    sim_switch(&from->sp, to->sp);
    // resumed: g_cur set by whoever switched back
}

static void fiber_entry(Fiber* f) noexcept
{
    if (f->func) { std::function<void()>* fn = f->func; (*fn)(); { HostScope h; delete fn; } f->func = NULL; }
    else f->ret = f->fn(f->arg);
}
extern "C" void sim_fiber_main()
{
    Fiber* f = g_cur;
    fiber_entry(f);
    trace("thread exit");
    f->st = FS_DONE;
    wake_all(W_JOIN, f);
    sched_point(P_EXIT);
    __builtin_trap();
}

static bool g_stack_mapped = false;
int fiber_create(void* (*fn)(void*), void* arg, const char* name)
{
    int id = -1;
    if (g_nfib < MAX_FIBERS) id = g_nfib++;
    else for (int i = 1; i < MAX_FIBERS; ++i) if (g_fib[i].st == FS_DONE && (g_fib[i].joined || g_fib[i].detached)) { id = i; break; }
    if (id < 0) die_result(ST_INTERNAL, "internal", "too many fibers");
    if (!g_stack_mapped) {
        long r = rsys(SYS_mmap, (long)STACK_BASE, (long)(STACK_SLOT * MAX_FIBERS), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
        if (r != (long)STACK_BASE) die_result(ST_INTERNAL, "internal", "stack map");
        g_stack_mapped = true;
    }
    Fiber& f = g_fib[id];
    memset((void*)&f, 0, sizeof f);
    f.id = id; f.fn = fn; f.arg = arg; f.name = name; f.st = FS_RUN;
    char* lo = (char*)STACK_BASE + STACK_SLOT * (size_t)id;
    rsys(SYS_mprotect, (long)lo, 4096, PROT_NONE);
    // fresh threads see junk, not the previous contents
    u64* top = (u64*)(lo + STACK_SLOT - 64);
    *top = 0;
    *--top = (u64)(void*)sim_fiber_start; // return address of sim_switch
    for (int i = 0; i < 6; ++i) *--top = 0;
    --top;
    ((unsigned*)top)[0] = 0x1f80; ((unsigned*)top)[1] = 0x037f;
    f.sp = top;
    if (g_search) f.prio = (g_srng.next() >> 16) | (1ull << 40);
    loghash(0xF1BE5, (u64)id);
    return id;
}
void* fiber_join(int id)
{
    Fiber& f = g_fib[id];
    while (f.st != FS_DONE) block(W_JOIN, &f);
    f.joined = true;
    return f.ret;
}
int spawn(std::function<void()> fn, const char* name)
{
    std::function<void()>* p; { HostScope h; p = new std::function<void()>(fn); }
    int id = fiber_create(NULL, NULL, name);
    g_fib[id].func = p;
    sched_point(P_SYNC);
    return id;
}
void join(int id) { fiber_join(id); sched_point(P_SYNC); }
int self() { return g_cur ? g_cur->id : -1; }

// ---------------------------------------------------------------- scheduling decision
// no run may take more steps than this: the slowest finishing runs need a few percent of it
static const u64 STEP_MAX = 1000000000ull;
static void draw_mem_stop_1(); static void livelock();
static void draw_mem_stop()
{
    if (g_step >= STEP_MAX) livelock();
    draw_mem_stop_1();
    if (g_mem_stop > STEP_MAX) g_mem_stop = STEP_MAX; // the same place in a replay
}
static void draw_mem_stop_1()
{
    if (g_search) {
        if (g_memgap <= 0) { g_mem_stop = g_step + 1000000; return; }
        u64 r = g_srng.next();
        // roughly geometric
        u64 gap = 1 + (r % (u64)(2 * g_memgap));
        if ((r >> 40) % 8 == 0) gap = 1 + (r >> 20) % 8;
        g_mem_stop = g_step + gap;
    } else {
        while (g_dev_pos < g_ndev_in && g_dev_in[g_dev_pos].step < g_step) ++g_dev_pos;
        int q = g_dev_pos;
        while (q < g_ndev_in && g_dev_in[q].step <= g_step) ++q;
        u64 lim = g_step + 1000000;
        g_mem_stop = q < g_ndev_in && g_dev_in[q].step < lim ? g_dev_in[q].step : lim;
    }
}
static void record(u64 step, int v)
{
    if (R->ndev < MAX_DEV) { R->dev[R->ndev].step = step; R->dev[R->ndev].value = v; R->ndev++; }
    else R->overflow = true;
}
static bool replay_dev(int& v)
{
    while (g_dev_pos < g_ndev_in && g_dev_in[g_dev_pos].step < g_step) ++g_dev_pos;
    if (g_dev_pos < g_ndev_in && g_dev_in[g_dev_pos].step == g_step) { v = g_dev_in[g_dev_pos].value; return true; }
    return false;
}
static void deadlock()
{
    char b[1500]; int n = 0; b[0] = 0;
    static const char* wn[] = { "-", "mutex", "cond", "join", "io", "aio-events", "static-init", "barrier", "sleep", "critical" };
    for (int i = 0; i < g_nfib && n < 1400; ++i) {
        Fiber& f = g_fib[i];
        if (f.st == FS_DONE) continue;
        if (f.wk == W_MUTEX) n += snprintf(b + n, sizeof(b) - n, "T%d(%s) waits for mutex held by T%d; ", i, f.name, f.wobj ? *(const int*)f.wobj - 1 : -1);
        else n += snprintf(b + n, sizeof(b) - n, "T%d(%s) waits on %s; ", i, f.name, wn[f.wk]);
    }
    violation("deadlock", "no simulated thread can make progress: %s", b);
}

// pick next fiber. kind tells what triggered; cur_ok: current fiber may continue
static int decide(PK k, bool cur_ok)
{
    int run[MAX_FIBERS], n = 0;
    for ( ; ; ) {
        n = 0;
        for (int i = 0; i < g_nfib; ++i) if (g_fib[i].st == FS_RUN && (cur_ok || &g_fib[i] != g_cur)) run[n++] = i;
        if (n == 1 && cur_ok && k == P_YIELD && run[0] == g_cur->id) { advance_clock();
            n = 0; for (int i = 0; i < g_nfib; ++i) if (g_fib[i].st == FS_RUN) run[n++] = i; }
        if (n) break;
        if (!advance_clock()) deadlock();
        if (!cur_ok && g_cur->st == FS_RUN) cur_ok = true; // woken by timer
    }
    // default choice
    int def;
    int lru = -1;
    for (int i = 0; i < n; ++i) {
        if (cur_ok && k == P_YIELD && run[i] == g_cur->id && n > 1) continue;
        if (lru < 0 || g_fib[run[i]].lastrun < g_fib[lru].lastrun) lru = run[i];
    }
    bool cur_runnable = cur_ok && g_cur->st == FS_RUN;
    def = (cur_runnable && k != P_YIELD) ? g_cur->id : lru;
    if (n == 1) return run[0];
    int pick = def;
    if (!g_search) {
        int v;
        if (replay_dev(v))
            for (int i = 0; i < n; ++i) if (run[i] == v) pick = v;
        return pick;
    }
    if (g_fair) { // round robin, ends any starvation
        pick = lru;
    }
    else if (g_mode == 0) { // random walk
        bool sw = !cur_runnable || k == P_YIELD || k == P_MEM || (long)g_srng.below(1000) < g_preempt;
        if (sw) {
            if (k == P_MEM && n > 1) { do pick = run[g_srng.below(n)]; while (pick == g_cur->id && g_srng.chance(9, 10)); }
            else pick = run[g_srng.below(n)];
        }
    }
    else if (g_mode == 1) { // PCT priorities
        if (k == P_YIELD) g_cur->prio = --g_pctlow;
        else if (k == P_MEM || g_sync_steps >= g_next_change) {
            g_next_change = g_sync_steps + 1 + g_srng.below(2 * g_pctgap);
            if (cur_runnable) g_cur->prio = --g_pctlow;
            if (g_srng.chance(1, 3)) { int v = run[g_srng.below(n)]; g_fib[v].prio = (1ull << 41) + g_srng.below(1000000); }
        }
        if (++g_same_run > 3000 && cur_runnable) { g_cur->prio = --g_pctlow; g_same_run = 0; }
        pick = run[0];
        for (int i = 1; i < n; ++i) if (g_fib[run[i]].prio > g_fib[pick].prio) pick = run[i];
    }
    else { // quantum round robin
        if (!cur_runnable || k == P_YIELD || k == P_MEM || g_quantum == 0) {
            pick = run[g_srng.below(n)];
            g_quantum = g_srng.below(2 * (u64)g_preempt + 1);
        } else --g_quantum;
    }
    if (pick != def) record(g_step, pick);
    return pick;
}

static void livelock()
{
    char b[1200]; int n = 0; b[0] = 0;
    for (int i = 0; i < g_nfib && n < 1100; ++i)
        if (g_fib[i].st != FS_DONE) n += snprintf(b + n, sizeof(b) - n, "T%d(%s) st=%d wait=%d; ", i, g_fib[i].name, g_fib[i].st, g_fib[i].wk);
    violation("no-progress", "not finished after %lu synchronisation steps (the last half under a fair schedule without faults): %s", g_sync_steps, b);
}

void sched_point(PK k)
{
    if (!g_insim) return;
    ++g_step; ++g_sync_steps;
    g_clock += 1000;
    if (g_sync_steps > g_step_limit / 2 && !g_fair) { g_fair = true; g_faults_on = false; probe("fair-mode"); }
    if (g_sync_steps > g_step_limit) livelock();
    fire_events();
    int nx = decide(k, g_cur->st == FS_RUN);
    R->sched_hash = hash2(R->sched_hash, (u64)k);
    switch_to(nx);
    if (g_step >= g_mem_stop) draw_mem_stop();
}

void mem_slow()
{
    if (!g_insim) { g_mem_stop = ~0ull; return; }
    if (g_cur->nopreempt || g_nopreempt_global) { draw_mem_stop(); return; }
    if (g_search && g_memgap <= 0) { draw_mem_stop(); return; }
    int v;
    if (!g_search && !replay_dev(v)) { draw_mem_stop(); return; }
   
    int nx = decide(P_MEM, true);
    if (nx != g_cur->id) { probe("mem-preempt"); }
    switch_to(nx);
    draw_mem_stop();
}

void block(WaitKind k, const void* obj, u64 deadline)
{
    Fiber* f = g_cur;
    f->st = deadline && k == W_SLEEP ? FS_TIMED : FS_BLOCK;
    f->wk = k; f->wobj = obj; f->deadline = deadline; f->woken = false;
    ++g_step; ++g_sync_steps;
    g_clock += 1000;
    if (g_sync_steps > g_step_limit / 2 && !g_fair) { g_fair = true; g_faults_on = false; }
    if (g_sync_steps > g_step_limit) livelock();
    fire_events();
    int nx = decide(P_SYNC, f->st == FS_RUN);
    switch_to(nx);
    f->wk = W_NONE; f->wobj = NULL; f->deadline = 0;
    if (g_step >= g_mem_stop) draw_mem_stop();
}
int count_waiters(WaitKind k, const void* obj)
{
    int n = 0;
    for (int i = 0; i < g_nfib; ++i) if (g_fib[i].st == FS_BLOCK && g_fib[i].wk == k && g_fib[i].wobj == obj) ++n;
    return n;
}
int wake_all(WaitKind k, const void* obj)
{
    int n = 0;
    for (int i = 0; i < g_nfib; ++i)
        if (g_fib[i].st == FS_BLOCK && g_fib[i].wk == k && g_fib[i].wobj == obj) { g_fib[i].st = FS_RUN; g_fib[i].woken = true; g_fib[i].deadline = 0; ++n; }
    return n;
}
int wake_one(WaitKind k, const void* obj)
{
    int w[MAX_FIBERS], n = 0;
    for (int i = 0; i < g_nfib; ++i) if (g_fib[i].st == FS_BLOCK && g_fib[i].wk == k && g_fib[i].wobj == obj) w[n++] = i;
    if (!n) return 0;
    int i = w[n > 1 ? choose((unsigned)n) : 0];
    g_fib[i].st = FS_RUN; g_fib[i].woken = true; g_fib[i].deadline = 0;
    return 1;
}
unsigned choose(unsigned n)
{
    if (n <= 1 || !g_insim) return 0;
    ++g_step;
    unsigned v = 0; int d;
    if (g_search) { v = (unsigned)g_srng.below(n); if (v) record(g_step, (int)v); if (g_step >= g_mem_stop) draw_mem_stop(); }
    else { if (replay_dev(d)) v = (unsigned)d % n; if (g_step >= g_mem_stop) draw_mem_stop(); }
    loghash(0xC400, v);
    return v;
}

void yield() { if (g_insim) sched_point(P_YIELD); }
void point() { if (g_insim) sched_point(P_SYNC); }
void io_sleep(u64 ns) { block(W_SLEEP, NULL, g_clock + ns + 1); }
void sleep_us(u64 us) { io_sleep(us * 1000); }
u64 io_latency(int kind)
{
    u64 h = hash3(g_latseed, (u64)kind, g_latn++);
    if (g_latscale == 0) return 0;
    // long-tailed
    u64 r = h % (g_latscale + 1);
    unsigned t = (h >> 40) % 16;
    if (t < 6) r /= 16;
    if (t == 15) r *= 4;
    u64 p;
    if (fault(F_STALL, &p)) r += 50000000ull + p % 1000000000ull;
    return r;
}
u64 seq() { return ++g_seqno; }
u64 now_us() { return g_clock / 1000; }
int phase() { return g_phase; }
bool active() { return g_insim; }
void set_step_limit(unsigned long n) { g_step_limit = n; }
NoPreempt::NoPreempt() { if (g_cur) ++g_cur->nopreempt; else ++g_nopreempt_global; }
NoPreempt::~NoPreempt() { if (g_cur) --g_cur->nopreempt; else --g_nopreempt_global; }

// ---------------------------------------------------------------- faults
void faults_on(bool on) { g_faults_on = on; }
bool faults_are_on() { return g_faults_on; }
unsigned long fault_count(int k) { return g_ffired[k]; }
unsigned long fault_total() { return g_ftotal; }
bool fault(int kind, u64* param)
{
    if (!g_insim || !g_faults_on) return false;
    if (g_search && !g_frate[kind]) return false;
    unsigned n = g_fcnt[kind]++;
    u64 p = 0; bool f = false;
    if (g_search) {
        u64 h = hash3(g_fseed, (u64)kind, n);
        if (g_fburst[kind]) { g_fburst[kind]--; f = true; }
        else f = (long)(h % 10000) < g_frate[kind];
        if (f && !g_fburst[kind] && (h >> 20) % 16 == 0 && g_frate[kind] < 3000) g_fburst[kind] = (h >> 30) % 4; // bursts
        p = h >> 16;
    } else {
        for (int i = 0; i < g_nfrec_in; ++i)
            if (g_frec_in[i].kind == kind && g_frec_in[i].nth == n) { f = true; p = g_frec_in[i].param; break; }
    }
    if (!f) return false;
    if (R->nfrec < MAX_FREC) { FaultRec& r = R->frec[R->nfrec++]; r.kind = kind; r.nth = n; r.param = p; }
    else R->overflow = true;
    g_ffired[kind]++; g_ftotal++;
    loghash(0xFA17 + kind, n);
    trace("FAULT %s #%u", fault_names[kind], n);
    if (param) *param = p;
    return true;
}
void kill_now()
{
    trace("KILL");
    g_insim = false;
    R->status = ST_KILLED; R->cur_step_at_kill = g_step;
    fill_result();
    rsys(SYS_exit_group, 0);
    __builtin_unreachable();
}
void kill_point()
{
    if (fault(F_KILL)) kill_now();
}
void* shared_scratch(size_t* len) { if (len) *len = sizeof(R->scratch); return R->scratch; }

// ---------------------------------------------------------------- process setup
typedef void (* exitfn)(void);
static exitfn g_atexit[512]; static int g_natexit = 0;
void run_atexit()
{
    while (g_natexit > 0) { exitfn f = g_atexit[--g_natexit]; f(); }
}

static void on_terminate()
{
    char b[1024] = "terminate called without active exception";
    std::type_info* t = abi::__cxa_current_exception_type();
    g_insim = false;
    if (t) {
        int st = 0; char* dn; { HostScope h; dn = abi::__cxa_demangle(t->name(), 0, 0, &st); }
        const char* what = "";
        try { throw; }
        catch (const std::exception& e) { what = e.what(); }
        catch (...) { }
        snprintf(b, sizeof b, "%s: %s", dn ? dn : t->name(), what);
    }
    { HostScope h; if (harness()->accept_terminate(*g_case, b)) die_result(ST_EARLY, "accepted-terminate", b); }
    char cls[200];
    char tn[100]; strncpy(tn, b, 99); tn[99] = 0; if (char* c = strchr(tn, ' ')) *c = 0; if (char* c = strchr(tn, ':')) { if (c[1] != ':') *c = 0; else if (char* d = strchr(c + 2, ':')) *d = 0; }
    snprintf(cls, sizeof cls, "terminate:%s", tn);
    char m[1200]; snprintf(m, sizeof m, "std::terminate in T%d (%s): %s", g_cur ? g_cur->id : -1, g_cur ? g_cur->name : "?", b);
    die_result(ST_VIOLATION, cls, m);
}

static void sym(const void* a, char* out, size_t n)
{
    Dl_info di;
    if (dladdr(a, &di) && di.dli_sname) {
        HostScope h; int st = 0;
        char* d = abi::__cxa_demangle(di.dli_sname, 0, 0, &st);
        snprintf(out, n, "%.120s+0x%lx", d ? d : di.dli_sname, (long)((char*)a - (char*)di.dli_saddr));
    } else snprintf(out, n, "%p", a);
}
static void on_signal(int sig, siginfo_t* si, void* uc)
{
    bool was = g_insim; g_insim = false; g_alloc_sim = false;
    char s[200] = "?", cls[256], m[900];
    ucontext_t* u = (ucontext_t*)uc;
    void* ip = (void*)u->uc_mcontext.gregs[REG_RIP];
    sym(ip, s, sizeof s);
    uintptr_t a = (uintptr_t)si->si_addr;
    const char* extra = "";
    if (sig == SIGSEGV && a >= STACK_BASE && a < STACK_BASE + STACK_SLOT * MAX_FIBERS) extra = " (stack overflow)";
    if (sig == SIGXCPU || sig == SIGALRM) snprintf(cls, sizeof cls, "hang");
    else snprintf(cls, sizeof cls, "crash:%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : sig == SIGABRT ? "SIGABRT" : "signal");
    int n = snprintf(m, sizeof m, "signal %d%s at address %p in %s, T%d (%s)", sig, extra, si->si_addr, s, g_cur ? g_cur->id : -1, g_cur ? g_cur->name : "?");
    // frame-pointer-less: scan stack for a few return addresses
    u64* sp = (u64*)u->uc_mcontext.gregs[REG_RSP]; int found = 0;
    uintptr_t stop = ((uintptr_t)sp | (STACK_SLOT - 1)) - 64;
    if ((uintptr_t)sp >= STACK_BASE && (uintptr_t)sp < STACK_BASE + STACK_SLOT * MAX_FIBERS)
        for (int i = 0; i < 400 && found < 5 && (uintptr_t)(sp + i) < stop; ++i) {
            Dl_info di;
            if (sp[i] > 0x400000 && sp[i] < 0x10000000 && dladdr((void*)sp[i], &di) && di.dli_sname) {
                sym((void*)sp[i], s, sizeof s); n += snprintf(m + n, n < 700 ? sizeof(m) - n : 0, " < %.100s", s); ++found;
            }
        }
    (void)was;
    die_result(ST_VIOLATION, cls, m);
}

static char g_sigstack[65536];
void child_main_setup(Result* r, const Case* c, int phase, bool search)
{
    R = r; g_case = c; g_phase = phase; g_search = search;
    R->log_hash = R->log_hash; 
    u64 sseed = (u64)c->get("s.seed", 1);
    g_srng = Rng(hash2(sseed, 77 + phase));
    g_mode = (int)c->get("s.mode", 0); g_preempt = c->get("s.preempt", 100); g_memgap = c->get("s.memgap", 0);
    g_pctgap = (u64)c->get("s.pctgap", 200); g_pctlow = 1ull << 39; g_next_change = g_srng.below(g_pctgap) + 1;
    g_latseed = (u64)c->get("s.latseed", 1) + 1000 * phase; g_latscale = (u64)c->get("s.lat", 0); g_latn = 0;
    g_fseed = (u64)c->get("f.seed", 1) + 1000 * phase;
    g_step_limit = (unsigned long)c->get("s.limit", 400000);
    for (int i = 0; i < F_NUM; ++i) {
        char k[64]; snprintf(k, sizeof k, "f.%s", fault_names[i]);
        g_frate[i] = c->get(k, 0);
    }
    struct sigaction sa; memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    stack_t ss; ss.ss_sp = g_sigstack; ss.ss_size = sizeof g_sigstack; ss.ss_flags = 0;
    sigaltstack(&ss, NULL);
    int sg[] = { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGXCPU, SIGTRAP };
    for (unsigned i = 0; i < sizeof sg / sizeof *sg; ++i) sigaction(sg[i], &sa, NULL);
    struct rlimit rl; rl.rlim_cur = (rlim_t)c->get("s.cpu", 60); rl.rlim_max = rl.rlim_cur + 5;
    setrlimit(RLIMIT_CPU, &rl);
    std::set_terminate(on_terminate);
}
void child_set_replay(DevRec* d, int nd, FaultRec* f, int nf)
{
    g_dev_in = d; g_ndev_in = nd; g_frec_in = f; g_nfrec_in = nf; g_dev_pos = 0;
}

static void* main_fiber(void*)
{
    {
        harness()->run_phase(*g_case, g_phase);
    }
    faults_on(false);
    run_atexit();
    harness()->after_exit(*g_case, g_phase);
    return NULL;
}
void child_run()
{
    g_step = 0; draw_mem_stop(); // instrumented inline code shared with the driver may have counted
    g_faults_on = true;
    g_alloc_sim = true;
    g_insim = true;
    int id = fiber_create(main_fiber, NULL, "main");
    static Fiber host; host.id = -1; host.st = FS_DONE; host.name = "host";
    g_cur = &g_fib[id];
    load_ctx(g_cur);
    static int wid = fiber_create([](void*) -> void* {
        // waits for main, then ends the run
        while (g_fib[0].st != FS_DONE) block(W_JOIN, &g_fib[0]);
        for (int i = 2; i < g_nfib; ++i)
            if (g_fib[i].st != FS_DONE && !g_fib[i].detached)
                violation("thread-leak", "simulated thread T%d (%s) still alive after shutdown", i, g_fib[i].name);
        die_result(ST_OK, "ok", "");
        return NULL;
    }, NULL, "reaper");
    (void)wid;
    g_fib[1].prio = 0; g_fib[1].st = FS_BLOCK; g_fib[1].wk = W_JOIN; g_fib[1].wobj = &g_fib[0];
    save_ctx(&host);
    sim_switch(&host.sp, g_cur->sp);
    _exit(3);
}
} // namespace sim

// ================================================================ interposed symbols
using namespace sim;

struct PM { int owner; unsigned count; int spare[2]; int kind; };
static inline PM* pm(pthread_mutex_t* m) { return (PM*)m; }
static void chk_obj(const void* p, const char* what)
{
    const char* b = mem_bad(p, 40);
    if (b) { char cls[64]; snprintf(cls, sizeof cls, "sync-object-%s", b); violation(cls, "%s used on %s memory %p", what, b, p); }
}
extern "C" {
int atexit(void (*f)(void))
{
    if (g_insim) { if (g_natexit < 512) g_atexit[g_natexit++] = f; return 0; }
    return 0; // outside the simulation the process always ends by _exit
}
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a)
{
    memset(m, 0, sizeof *m);
    if (a) { int t = 0; pthread_mutexattr_gettype(a, &t); pm(m)->kind = t; }
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t* m)
{
    if (!g_insim) return 0;
    if (pm(m)->owner) return EBUSY;
    pm(m)->owner = -77; pm(m)->spare[0] = -77; // destroyed
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!g_insim) return 0;
    chk_obj(m, "pthread_mutex_lock");
    sched_point(P_LOCK);
    PM* p = pm(m);
    if (p->owner == -77) violation("mutex-destroyed", "lock of a destroyed mutex %p by T%d", (void*)m, g_cur->id);
    if (p->owner == g_cur->id + 1 && p->kind == PTHREAD_MUTEX_RECURSIVE) { p->count++; return 0; }
    while (p->owner) { chk_obj(m, "pthread_mutex_lock (waiting)"); if (p->owner == -77) violation("mutex-destroyed", "mutex destroyed while T%d waits for it", g_cur->id); block(W_MUTEX, m); }
    p->owner = g_cur->id + 1;
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!g_insim) return 0;
    chk_obj(m, "pthread_mutex_trylock");
    sched_point(P_LOCK);
    PM* p = pm(m);
    if (p->owner == g_cur->id + 1 && p->kind == PTHREAD_MUTEX_RECURSIVE) { p->count++; return 0; }
    if (p->owner) return EBUSY;
    p->owner = g_cur->id + 1;
    return 0;
}
static void mutex_release(pthread_mutex_t* m)
{
    PM* p = pm(m);
    if (p->owner != g_cur->id + 1) violation("mutex-not-owned", "T%d unlocks mutex %p owned by T%d", g_cur->id, (void*)m, p->owner - 1);
    if (p->count) { p->count--; return; }
    p->owner = 0;
    wake_all(W_MUTEX, m);
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!g_insim) return 0;
    chk_obj(m, "pthread_mutex_unlock");
    mutex_release(m);
    sched_point(P_UNLOCK);
    return 0;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c)
{
    if (!g_insim) return 0;
    if (count_waiters(W_COND, c)) violation("cond-destroyed-with-waiters", "condition variable %p destroyed while a thread waits on it", (void*)c);
    *(int*)c = -77;
    return 0;
}
static int cond_wait_until(pthread_cond_t* c, pthread_mutex_t* m, u64 dl)
{
    chk_obj(c, "pthread_cond_wait"); chk_obj(m, "pthread_cond_wait");
    if (*(int*)c == -77) violation("cond-destroyed", "wait on destroyed condition variable");
    mutex_release(m);
    bool timed = false;
    if (fault(F_SPURIOUS)) { sched_point(P_SYNC); }
    else { block(W_COND, c, dl); timed = !g_cur->woken && dl; }
    chk_obj(m, "pthread_cond_wait (relock)");
    PM* p = pm(m);
    while (p->owner) { if (p->owner == -77) violation("mutex-destroyed", "mutex destroyed while T%d waits", g_cur->id); block(W_MUTEX, m); chk_obj(m, "pthread_cond_wait (relock)"); }
    p->owner = g_cur->id + 1;
    return timed ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { if (!g_insim) return 0; return cond_wait_until(c, m, 0); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts)
{ if (!g_insim) return 0; return cond_wait_until(c, m, (u64)ts->tv_sec * 1000000000ull + ts->tv_nsec); }
int pthread_cond_signal(pthread_cond_t* c)
{
    if (!g_insim) return 0;
    chk_obj(c, "pthread_cond_signal");
    if (*(int*)c == -77) violation("cond-destroyed", "signal on destroyed condition variable");
    wake_one(W_COND, c);
    sched_point(P_SIGNAL);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c)
{
    if (!g_insim) return 0;
    chk_obj(c, "pthread_cond_broadcast");
    if (*(int*)c == -77) violation("cond-destroyed", "broadcast on destroyed condition variable");
    wake_all(W_COND, c);
    sched_point(P_SIGNAL);
    return 0;
}
int pthread_create(pthread_t* t, const pthread_attr_t*, void* (*fn)(void*), void* arg)
{
    if (!g_insim) return EAGAIN;
    sched_point(P_SYNC);
    if (fault(F_THREAD_FAIL)) return EAGAIN;
    int id = fiber_create(fn, arg, "thread");
    *t = (pthread_t)(id + 1);
    sched_point(P_SYNC);
    return 0;
}
int pthread_join(pthread_t t, void** r)
{
    if (!g_insim) return EINVAL;
    sched_point(P_SYNC);
    long id = (long)t - 1;
    if (id < 0 || id >= g_nfib) return ESRCH;
    if (id == g_cur->id) return EDEADLK;
    void* v = fiber_join((int)id);
    if (r) *r = v;
    return 0;
}
int pthread_detach(pthread_t t)
{
    if (!g_insim) return EINVAL;
    g_fib[(long)t - 1].detached = true; return 0;
}
pthread_t pthread_self(void) { return g_insim && g_cur ? (pthread_t)(g_cur->id + 1) : (pthread_t)1; }
int pthread_equal(pthread_t a, pthread_t b) { return a == b; }
int sched_yield(void) { if (g_insim) sched_point(P_YIELD); return 0; }
int usleep(useconds_t us) { if (g_insim) sleep_us(us); return 0; }
unsigned sleep(unsigned s) { if (g_insim) sleep_us((u64)s * 1000000); return 0; }
int nanosleep(const struct timespec* a, struct timespec*) { if (g_insim) io_sleep((u64)a->tv_sec * 1000000000ull + a->tv_nsec); return 0; }

static u64 wall_ns()
{
    static long long skew = 0;
    u64 p;
    if (fault(F_CLOCK_JUMP, &p)) skew += (long long)(p % 20000000000ull) - 10000000000ll;
    return 1600000000000000000ull + g_clock + skew;
}
int gettimeofday(struct timeval* tv, void*)
{
    if (!g_insim) { tv->tv_sec = 1600000000; tv->tv_usec = 0; return 0; } // static initialisers seed from it
    u64 n = wall_ns(); tv->tv_sec = (time_t)(n / 1000000000ull); tv->tv_usec = (n % 1000000000ull) / 1000;
    return 0;
}
int clock_gettime(clockid_t c, struct timespec* ts)
{
    if (!g_insim) return (int)rsys(SYS_clock_gettime, c, (long)ts);
    u64 n = c == CLOCK_REALTIME ? wall_ns() : g_clock; ts->tv_sec = (time_t)(n / 1000000000ull); ts->tv_nsec = n % 1000000000ull;
    return 0;
}
time_t time(time_t* t)
{
    time_t v;
    if (!g_insim) { struct timespec ts; rsys(SYS_clock_gettime, 0, (long)&ts); v = ts.tv_sec; }
    else v = (time_t)(wall_ns() / 1000000000ull);
    if (t) *t = v;
    return v;
}
pid_t getpid(void) { return 4242; }

void __assert_fail(const char* e, const char* file, unsigned line, const char* fn)
{
    const char* b = strrchr(file, '/'); b = b ? b + 1 : file;
    char cls[256]; snprintf(cls, sizeof cls, "assert:%s:%.120s", b, e);
    violation(cls, "assertion `%s' failed at %s:%u in %.300s", e, b, line, fn);
}

// exceptions thrown in client threads (not in threads of the library)
void __cxa_throw(void* o, std::type_info* t, void (* d)(void*))
{
    static void (* real)(void*, void*, void (*)(void*));
    if (!real) { bool was = g_insim; g_insim = false; real = (void (*)(void*, void*, void (*)(void*)))dlsym(RTLD_NEXT, "__cxa_throw"); g_insim = was; }
    if (g_insim && g_cur && strcmp(g_cur->name, "thread")) { ++g_client_throws; strncpy(g_client_throw, t->name(), sizeof g_client_throw - 1); }
    real(o, t, d);
    __builtin_unreachable();
}

// static-initialisation guards
int __cxa_guard_acquire(long long* g)
{
    char* b = (char*)g;
    if (b[0]) return 0;
    if (g_insim) while (b[1]) { block(W_GUARD, g); if (b[0]) return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(long long* g) { char* b = (char*)g; b[0] = 1; b[1] = 0; if (g_insim) wake_all(W_GUARD, g); }
void __cxa_guard_abort(long long* g) { char* b = (char*)g; b[1] = 0; if (g_insim) wake_all(W_GUARD, g); }

// memory-access preemption points (code under test is compiled with -fsanitize=thread)
#define MEMPT() do { if (__builtin_expect(++g_step >= g_mem_stop, 0)) mem_slow(); } while (0)
void __tsan_init() { }
void __tsan_func_entry(void*) { }
void __tsan_func_exit() { }
#define RW(n) void __tsan_read ## n(void*) { MEMPT(); } void __tsan_write ## n(void*) { MEMPT(); } \
    void __tsan_unaligned_read ## n(void*) { MEMPT(); } void __tsan_unaligned_write ## n(void*) { MEMPT(); } \
    void __tsan_volatile_read ## n(void*) { MEMPT(); } void __tsan_volatile_write ## n(void*) { MEMPT(); } \
    void __tsan_unaligned_volatile_read ## n(void*) { MEMPT(); } void __tsan_unaligned_volatile_write ## n(void*) { MEMPT(); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read1_pc(void*, void*) { MEMPT(); }
void __tsan_read_range(void*, long) { MEMPT(); }
void __tsan_write_range(void*, long) { MEMPT(); }
void __tsan_vptr_update(void** p, void* v) { (void)p; (void)v; MEMPT(); }
void __tsan_vptr_read(void**) { MEMPT(); }
#define ATOM(n, T) \
    T __tsan_atomic ## n ## _load(const volatile T* a, int) { MEMPT(); return *a; } \
    void __tsan_atomic ## n ## _store(volatile T* a, T v, int) { MEMPT(); *a = v; } \
    T __tsan_atomic ## n ## _exchange(volatile T* a, T v, int) { MEMPT(); T o = *a; *a = v; return o; } \
    T __tsan_atomic ## n ## _fetch_add(volatile T* a, T v, int) { MEMPT(); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic ## n ## _fetch_sub(volatile T* a, T v, int) { MEMPT(); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic ## n ## _fetch_and(volatile T* a, T v, int) { MEMPT(); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic ## n ## _fetch_or(volatile T* a, T v, int) { MEMPT(); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic ## n ## _fetch_xor(volatile T* a, T v, int) { MEMPT(); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic ## n ## _compare_exchange_val(volatile T* a, T c, T v, int, int) { MEMPT(); T o = *a; if (o == c) *a = v; return o; } \
    int __tsan_atomic ## n ## _compare_exchange_strong(volatile T* a, T* c, T v, int, int) { MEMPT(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic ## n ## _compare_exchange_weak(volatile T* a, T* c, T v, int, int) { MEMPT(); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; }
ATOM(8, unsigned char) ATOM(16, unsigned short) ATOM(32, unsigned) ATOM(64, unsigned long)
void __tsan_atomic_thread_fence(int) { }
void __tsan_atomic_signal_fence(int) { }

// large copies are torn: a preemption point in the middle (memcpy references of the code under test are renamed to this)
void* sim_torn_memcpy(void* d, const void* s, size_t n)
{
    if (__builtin_expect(n >= 256 && g_insim && !g_cur->nopreempt && sim::g_tear_copies, 0)) {
        size_t h = n / 2;
        memcpy(d, s, h);
        MEMPT();
        memcpy((char*)d + h, (const char*)s + h, n - h);
        return d;
    }
    return memcpy(d, s, n);
}
}
