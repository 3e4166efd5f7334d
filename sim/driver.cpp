// Seeded search over simulated runs, replay, minimisation and reporting.
#include "internal.h"
#include <algorithm>
#include <cstdlib>
#include <signal.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

namespace sim {
void child_set_replay(DevRec* d, int nd, FaultRec* f, int nf);

static double wall() { struct timespec t; rsys(SYS_clock_gettime, CLOCK_MONOTONIC, (long)&t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct Run
{
    Case c;
    std::vector<DevRec> dev;   // step | phase<<56
    std::vector<FaultRec> frec; // kind | phase<<16
};
struct Out
{
    int status; std::string cls, msg; u64 log, sched, step; bool overflow;
    std::vector<DevRec> dev; std::vector<FaultRec> frec;
};

static Result* alloc_result()
{
    void* p = (void*)rsys(SYS_mmap, 0, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    return (Result*)p;
}
static void reset_result(Result* r, bool all)
{
    if (all) {
        size_t n = offsetof(Result, frec);
        memset((void*)r, 0, n);
        memset(r->scratch, 0, sizeof r->scratch);
    } else { r->status = ST_NONE; r->cls[0] = r->msg[0] = 0; }
    r->ndev = r->nfrec = 0; r->overflow = false;
}

static void run_once(Result* r, const Run& run, bool search, bool keep, Out* out)
{
    reset_result(r, true);
    vfs_init_shared();
    Harness* h = harness();
    int np = h->phases(run.c);
    std::vector<DevRec> dall; std::vector<FaultRec> fall;
    u64 steps = 0, sync = 0, clk = 0, sw = 0;
    for (int ph = 0; ph < np; ++ph) {
        reset_result(r, false);
        std::vector<DevRec> pd; std::vector<FaultRec> pf;
        if (!search) {
            for (size_t i = 0; i < run.dev.size(); ++i) if ((int)(run.dev[i].step >> 56) == ph) { DevRec d = run.dev[i]; d.step &= (1ull << 56) - 1; pd.push_back(d); }
            for (size_t i = 0; i < run.frec.size(); ++i) if ((run.frec[i].kind >> 16) == ph) { FaultRec f = run.frec[i]; f.kind &= 0xffff; pf.push_back(f); }
        }
        pid_t pid = fork();
        if (pid < 0) { perror("fork"); _exit(3); }
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            alarm((unsigned)run.c.get("s.wall", 90));
            if (!g_verbose) {
                int nul = (int)rsys(SYS_open, (long)"/dev/null", O_RDWR, 0);
                rsys(SYS_dup2, nul, 1); rsys(SYS_dup2, nul, 2);
            }
            vfs_init_phase();
            child_main_setup(r, &run.c, ph, search);
            if (!search) child_set_replay(pd.data(), (int)pd.size(), pf.data(), (int)pf.size());
            child_run();
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0) { }
        if (r->status == ST_NONE) {
            r->status = ST_VIOLATION;
            if (WIFSIGNALED(st)) {
                int sg = WTERMSIG(st);
                if (sg == SIGALRM || sg == SIGXCPU || sg == SIGKILL) { strcpy(r->cls, "hang"); }
                else snprintf(r->cls, sizeof r->cls, "crash:signal-%d", sg);
                snprintf(r->msg, sizeof r->msg, "simulated process died from signal %d", sg);
            } else if (WEXITSTATUS(st) == 3) { r->status = ST_INTERNAL; strcpy(r->cls, "internal"); }
            else { snprintf(r->cls, sizeof r->cls, "exit:%d", WEXITSTATUS(st)); strcpy(r->msg, "process exited on its own"); }
        }
        steps += r->step; sync += r->sync_steps; clk += r->clock_us; sw += r->switches * 0;
        r->phase_done = ph;
        if (keep) {
            for (int i = 0; i < r->ndev; ++i) { DevRec d = r->dev[i]; d.step |= (u64)ph << 56; dall.push_back(d); }
            for (int i = 0; i < r->nfrec; ++i) { FaultRec f = r->frec[i]; f.kind |= ph << 16; fall.push_back(f); }
        }
        if (r->status == ST_VIOLATION || r->status == ST_INTERNAL) break;
    }
    r->step = steps; r->sync_steps = sync; r->clock_us = clk;
    if (out) {
        out->status = r->status; out->cls = r->cls; out->msg = r->msg; out->log = r->log_hash; out->sched = r->sched_hash; out->step = steps; out->overflow = r->overflow;
        out->dev.swap(dall); out->frec.swap(fall);
    }
}

static std::string prop;
static bool g_thorough = false; static long g_mode = 0;
static u64 base_seed = 1;

static u64 run_seed(u64 i) { u64 h = 0; for (char c : prop) h = hash2(h, (u64)c); return hash3(base_seed, h, i); }
static void make_case(u64 i, Case& c)
{
    Rng r(run_seed(i));
    c = Case();
    c.set("s.seed", (long)(r.next() >> 8)); c.set("s.latseed", (long)(r.next() >> 8)); c.set("f.seed", (long)(r.next() >> 8));
    if (g_mode) c.cfg["mode"] = g_mode;
    harness()->generate(r, c, g_thorough);
}

static std::string case_text(const Run& r, const Out* o, u64 idx, bool with_dev = true)
{
    std::string s; char b[3000];
    snprintf(b, sizeof b, "property %s\nharness %s\nseed %llu\nrun %llu\ntier %s\n", prop.c_str(), harness()->name(), base_seed, idx, g_thorough ? "thorough" : "quick"); s += b;
    if (o) {
        std::string m = o->msg; for (char& ch : m) if (ch == '\n') ch = ' ';
        s += "class " + o->cls + "\nmsg " + m + "\n";
        snprintf(b, sizeof b, "loghash %llx\nschedhash %llx\n", o->log, o->sched); s += b;
    }
    for (auto& kv : r.c.cfg) { snprintf(b, sizeof b, "cfg %s %ld\n", kv.first.c_str(), kv.second); s += b; }
    for (auto& op : r.c.ops) {
        snprintf(b, sizeof b, "op %d %ld %ld %ld %ld %ld %ld", op.code, op.a[0], op.a[1], op.a[2], op.a[3], op.a[4], op.a[5]); s += b;
        std::string d = harness()->describe(op);
        if (!d.empty()) s += "   # " + d;
        s += "\n";
    }
    if (with_dev) {
        for (auto& f : r.frec) { snprintf(b, sizeof b, "fault %d %s %u %llu\n", f.kind >> 16, fault_names[f.kind & 0xffff], f.nth, f.param); s += b; }
        for (auto& d : r.dev) { snprintf(b, sizeof b, "dev %d %llu %d\n", (int)(d.step >> 56), d.step & ((1ull << 56) - 1), d.value); s += b; }
    }
    return s;
}
static bool parse_case(const char* path, Run& r, Out& exp)
{
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        char k[256]; long v; char* e = strchr(line, '\n'); if (e) *e = 0;
        if (sscanf(line, "cfg %255s %ld", k, &v) == 2) r.c.cfg[k] = v;
        else if (!strncmp(line, "class ", 6)) exp.cls = line + 6;
        else if (!strncmp(line, "property ", 9)) prop = line + 9;
        else if (!strncmp(line, "loghash ", 8)) exp.log = strtoull(line + 8, 0, 16);
        else if (!strncmp(line, "schedhash ", 10)) exp.sched = strtoull(line + 10, 0, 16);
        else if (!strncmp(line, "tier ", 5)) g_thorough = !strcmp(line + 5, "thorough");
        else if (!strncmp(line, "op ", 3)) { Op o; if (sscanf(line, "op %d %ld %ld %ld %ld %ld %ld", &o.code, &o.a[0], &o.a[1], &o.a[2], &o.a[3], &o.a[4], &o.a[5]) >= 1) r.c.ops.push_back(o); }
        else if (!strncmp(line, "fault ", 6)) { int ph; unsigned n; unsigned long long p; if (sscanf(line, "fault %d %255s %u %llu", &ph, k, &n, &p) == 4) for (int i = 0; i < F_NUM; ++i) if (!strcmp(k, fault_names[i])) { FaultRec q = { i | ph << 16, n, p }; r.frec.push_back(q); } }
        else if (!strncmp(line, "dev ", 4)) { int ph, val; unsigned long long st; if (sscanf(line, "dev %d %llu %d", &ph, &st, &val) == 3) { DevRec d = { st | (u64)ph << 56, val }; r.dev.push_back(d); } }
    }
    fclose(f);
    return true;
}

// ---------------------------------------------------------------- known findings: "class" or "class|substring of message"
static std::vector<std::string> known;
static int match_known(const std::string& cls, const std::string& msg)
{
    for (size_t i = 0; i < known.size(); ++i) {
        std::string k = known[i], sub; size_t b = k.find('|');
        if (b != std::string::npos) { sub = k.substr(b + 1); k = k.substr(0, b); }
        if (cls == k && (sub.empty() || msg.find(sub) != std::string::npos)) return (int)i;
    }
    return -1;
}

// ---------------------------------------------------------------- workers
static const int NH = 1 << 19;
struct WStat
{
    u64 runs, early, nviol, ndet, detbad, steps, sync, clock_us, switches, ops, nontrivial, internal, devs, timeouts;
    unsigned long faults[F_NUM], opp[F_NUM];
    unsigned long knownhits[32];
    int nprobe; struct { char name[48]; unsigned long n, runs; } probes[MAX_PROBE];
    int nearly; struct { char name[100]; unsigned long n; } earlyc[32];
    struct { u64 idx; char cls[256]; } viol[8]; int nv;
    char detmsg[300]; char intmsg[300]; u64 detidx;
    u64 maxfib, maxstep;
    u64 nh; u64 hashes[NH];
};
struct Ctl { volatile long stop_at; volatile int stop; volatile unsigned long long next; };

static void worker(WStat* w, Ctl* ctl, int nrun, double deadline, int detmod)
{
    Result* r = alloc_result();
    R = r;
    for ( ; ; ) {
        if (wall() > deadline) { w->timeouts++; break; }
        u64 i = __sync_fetch_and_add(&ctl->next, 1);
        if (i >= (u64)nrun) break;
        if ((long)i > ctl->stop_at) continue;
        Run run; make_case(i, run.c);
        bool det = detmod && i % (u64)detmod == 0;
        Out o;
        run_once(r, run, true, true, &o);
        w->runs++;
        w->steps += r->step; w->sync += r->sync_steps; w->clock_us += r->clock_us; w->switches += r->switches; w->ops += run.c.ops.size();
        w->devs += o.dev.size();
        if (r->status != ST_VIOLATION && r->step > w->maxstep) w->maxstep = r->step;
        if (r->nfibers > w->maxfib) w->maxfib = r->nfibers;
        bool anyf = false;
        for (int k = 0; k < F_NUM; ++k) { w->faults[k] += r->faults[k]; w->opp[k] += r->fault_opp[k]; anyf |= r->faults[k] > 0; }
        for (int k = 0; k < r->nprobe; ++k) {
            int j = 0; for ( ; j < w->nprobe; ++j) if (!strcmp(w->probes[j].name, r->probes[k].name)) break;
            if (j == w->nprobe && w->nprobe < MAX_PROBE) { strcpy(w->probes[j].name, r->probes[k].name); w->nprobe++; }
            if (j < w->nprobe) { w->probes[j].n += r->probes[k].n; w->probes[j].runs++; }
        }
        if ((r->switches > 2 || anyf) && run.c.ops.size() > 0) w->nontrivial++;
        if (w->nh < NH) w->hashes[w->nh++] = hash2(r->sched_hash, run_seed(i) * 0 + r->log_hash);
        if (o.status == ST_EARLY) {
            w->early++;
            int j = 0; for ( ; j < w->nearly; ++j) if (!strncmp(w->earlyc[j].name, o.cls.c_str(), 99)) break;
            if (j == w->nearly && j < 32) { strncpy(w->earlyc[j].name, o.cls.c_str(), 99); w->nearly++; }
            if (j < 32) w->earlyc[j].n++;
        }
        if (o.status == ST_INTERNAL) { w->internal++; snprintf(w->intmsg, 299, "run %llu: %s", i, o.msg.c_str()); }
        if (o.status == ST_VIOLATION) {
            int k = match_known(o.cls, o.msg);
            if (k >= 0) w->knownhits[k]++;
            else {
                w->nviol++;
                if (w->nv < 8) { w->viol[w->nv].idx = i; strncpy(w->viol[w->nv].cls, o.cls.c_str(), 255); w->nv++; }
                // keep going only below the smallest violating index (deterministic answer)
                for ( ; ; ) { long s = ctl->stop_at; if (s <= (long)i + 64) break; if (__sync_bool_compare_and_swap(&ctl->stop_at, s, (long)i + 64)) break; }
            }
        }
        if (det && o.status != ST_INTERNAL && !o.overflow) {
            w->ndet++;
            Out o2, o3;
            run_once(r, run, true, false, &o2);
            Run rr = run; rr.dev = o.dev; rr.frec = o.frec;
            run_once(r, rr, false, false, &o3);
            if (o2.status != o.status || o2.cls != o.cls || o2.log != o.log || o2.sched != o.sched || o2.step != o.step ||
                o3.status != o.status || o3.cls != o.cls || o3.log != o.log || o3.sched != o.sched || o3.step != o.step) {
                w->detbad++; w->detidx = i;
                snprintf(w->detmsg, 299, "run %llu: first %d/%s/%llx/%llu again %d/%s/%llx/%llu replay %d/%s/%llx/%llu", i, o.status, o.cls.c_str(), o.sched, o.step, o2.status, o2.cls.c_str(), o2.sched, o2.step, o3.status, o3.cls.c_str(), o3.sched, o3.step);
            }
        }
    }
    _exit(0);
}

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
        else if (ch == '\n') o += "\\n";
        else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, 8, "\\u%04x", ch); o += b; }
        else o += (char)ch;
    }
    return o + "\"";
}

// ---------------------------------------------------------------- minimisation
static Result* mr;
static bool same(const Out& o, const std::string& cls) { return o.status == ST_VIOLATION && o.cls == cls; }
static bool try_replay(const Run& c, const std::string& cls, Out& o) { run_once(mr, c, false, false, &o); return same(o, cls); }

static bool try_candidate(Run& cand, const std::string& cls, int reseeds, double dl)
{
    Out o;
    if (try_replay(cand, cls, o)) return true;
    if (cand.dev.empty() && cand.frec.empty() && reseeds == 0) return false;
    for (int k = 0; k < reseeds && wall() < dl; ++k) {
        Run s = cand;
        s.c.set("s.seed", (long)(hash2((u64)cand.c.get("s.seed"), (u64)k) >> 8));
        run_once(mr, s, true, true, &o);
        if (same(o, cls) && !o.overflow) {
            s.dev = o.dev; s.frec = o.frec;
            Out o2;
            if (try_replay(s, cls, o2)) { cand = s; return true; }
        }
    }
    return false;
}
static void minimise(Run& best, const std::string& cls, double budget)
{
    double dl = wall() + budget;
    Out o;
    { Run c = best; c.dev.clear(); c.frec.clear(); if (try_replay(c, cls, o)) best = c; }
    if (!best.dev.empty()) { Run c = best; c.dev.clear(); if (try_replay(c, cls, o)) best = c; }
    if (!best.frec.empty()) { Run c = best; c.frec.clear(); if (try_replay(c, cls, o)) best = c; }
    for (const char* k : { "s.lat" }) if (best.c.get(k)) { Run c = best; c.c.set(k, 0); if (try_replay(c, cls, o)) best = c; }
    // operations
    size_t n = 2;
    while (best.c.ops.size() >= 2 && wall() < dl) {
        size_t len = best.c.ops.size(), ch = std::max<size_t>(1, len / n); bool red = false;
        for (size_t s = 0; s < len && wall() < dl; s += ch) {
            Run c = best;
            c.c.ops.erase(c.c.ops.begin() + (long)s, c.c.ops.begin() + (long)std::min(len, s + ch));
            if (try_candidate(c, cls, best.dev.empty() && best.frec.empty() ? 0 : (len > 40 ? 3 : 8), dl)) { best = c; red = true; break; }
        }
        if (red) { n = std::max<size_t>(2, n - 1); continue; }
        if (ch == 1) break;
        n = std::min(n * 2, len);
    }
    { Run c = best; c.dev.clear(); if (!best.dev.empty() && try_replay(c, cls, o)) best = c; }
    // faults, then schedule deviations
    for (int what = 0; what < 2; ++what) {
        size_t m = 2;
        for ( ; ; ) {
            size_t len = what == 0 ? best.frec.size() : best.dev.size();
            if (len < 1 || wall() > dl) break;
            size_t ch = std::max<size_t>(1, len / m); bool red = false;
            for (size_t s = 0; s < len && wall() < dl; s += ch) {
                Run c = best;
                if (what == 0) c.frec.erase(c.frec.begin() + (long)s, c.frec.begin() + (long)std::min(len, s + ch));
                else c.dev.erase(c.dev.begin() + (long)s, c.dev.begin() + (long)std::min(len, s + ch));
                if (try_replay(c, cls, o)) { best = c; red = true; break; }
            }
            if (red) { m = std::max<size_t>(2, m - 1); continue; }
            if (ch == 1) break;
            m = std::min(m * 2, len);
        }
    }
    // a deviation can often be moved away: one more pass on operations with the minimal schedule
    for (size_t s = 0; s < best.c.ops.size() && wall() < dl; ) {
        Run c = best; c.c.ops.erase(c.c.ops.begin() + (long)s);
        if (!c.c.ops.empty() && try_replay(c, cls, o)) best = c; else ++s;
    }
}

void gen_schedule(Rng& r, Case& c, bool mem)
{
    long mode = r.pick({ 0L, 0L, 1L, 1L, 2L });
    c.set("s.mode", mode);
    if (mode == 2) c.set("s.preempt", r.pick({ 1L, 3L, 10L, 50L }));
    else c.set("s.preempt", r.pick({ 0L, 20L, 100L, 300L, 1000L }));
    c.set("s.pctgap", r.pick({ 5L, 30L, 200L }));
    c.set("s.lat", r.pick({ 0L, 0L, 2000L, 20000L, 100000L, 1000000L, 10000000L }));
    if (mem) c.set("s.memgap", r.pick({ 0L, 20L, 200L, 1000L, 5000L }));
}
void gen_fault(Case& c, int kind, long rate) { char k[64]; snprintf(k, sizeof k, "f.%s", fault_names[kind]); c.set(k, rate); }
} // namespace sim

using namespace sim;

int main(int argc, char** argv)
{
    int runs = 1000, jobs = 8, detmod = 50; double maxs = 300, minb = 60; const char* out = NULL, * rep = NULL, * replay = NULL; long one = -1; bool dumpcase = false, hashes = false; std::string only;
    prop = harness()->name();
    // the environment is part of the simulated process: setenv() copies it to the heap
    static char* fixed_env[] = { (char*)"HOME=/", (char*)"PATH=/bin", NULL };
    environ = fixed_env;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        #define ARG(n) (a == n && i + 1 < argc)
        if (ARG("--seed")) base_seed = strtoull(argv[++i], 0, 10);
        else if (ARG("--runs")) runs = atoi(argv[++i]);
        else if (ARG("--jobs")) jobs = atoi(argv[++i]);
        else if (ARG("--det")) detmod = atoi(argv[++i]);
        else if (ARG("--max-seconds")) maxs = atof(argv[++i]);
        else if (ARG("--min-seconds")) minb = atof(argv[++i]);
        else if (ARG("--out")) out = argv[++i];
        else if (ARG("--replay-out")) rep = argv[++i];
        else if (ARG("--property")) prop = argv[++i];
        else if (ARG("--known")) known.push_back(argv[++i]);
        else if (ARG("--replay")) replay = argv[++i];
        else if (ARG("--mode")) g_mode = atol(argv[++i]);
        else if (ARG("--one")) one = atol(argv[++i]);
        else if (ARG("--only-class")) only = argv[++i];
        else if (a == "--hashes") hashes = true;
        else if (a == "--thorough") g_thorough = true;
        else if (a == "--case") dumpcase = true;
        else if (a == "-v") g_verbose = 1;
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    double t0 = wall();
    mr = alloc_result();
    R = mr;
    if (replay) {
        Run r; Out exp; exp.log = exp.sched = 0;
        if (!parse_case(replay, r, exp)) { fprintf(stderr, "cannot read %s\n", replay); return 3; }
        Out o; run_once(mr, r, false, false, &o);
        printf("replay status=%d class=%s loghash=%llx schedhash=%llx\n%s\n", o.status, o.cls.c_str(), o.log, o.sched, o.msg.c_str());
        bool rs = o.status == ST_VIOLATION && o.cls == exp.cls;
        bool ex = rs && o.log == exp.log && o.sched == exp.sched;
        printf("%s\n", ex ? "REPRODUCED exactly" : rs ? "REPRODUCED class only" : "NOT REPRODUCED");
        return ex ? 1 : rs ? 4 : 0;
    }
    if (one >= 0) {
        Run r; make_case((u64)one, r.c);
        if (dumpcase) { printf("%s", case_text(r, NULL, (u64)one).c_str()); return 0; }
        Out o; run_once(mr, r, true, true, &o);
        printf("run %ld status=%d class=%s steps=%llu dev=%zu faults=%zu\n%s\n", one, o.status, o.cls.c_str(), o.step, o.dev.size(), o.frec.size(), o.msg.c_str());
        if (rep) { r.dev = o.dev; r.frec = o.frec; FILE* f = fopen(rep, "w"); if (f) { fputs(case_text(r, &o, (u64)one).c_str(), f); fclose(f); } } // the recorded run, not minimised
        return 0;
    }
    if (hashes) { // one line per run: used to compare executions across processes
        for (long i = 0; i < runs; ++i) {
            Run r; make_case((u64)i, r.c); Out o; run_once(mr, r, true, false, &o);
            printf("%ld %d %s %llx %llx %llu\n", i, o.status, o.cls.c_str(), o.log, o.sched, o.step);
        }
        return 0;
    }
    WStat* ws = (WStat*)rsys(SYS_mmap, 0, (long)(sizeof(WStat) * (size_t)jobs), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    Ctl* ctl = (Ctl*)rsys(SYS_mmap, 0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    ctl->stop_at = 0x7fffffffffffl; ctl->next = 0;
    std::vector<pid_t> pids;
    for (int j = 0; j < jobs; ++j) {
        pid_t p = fork();
        if (p == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); worker(&ws[j], ctl, runs, t0 + maxs, detmod); }
        pids.push_back(p);
    }
    int bad_workers = 0;
    for (pid_t p : pids) { int st; while (waitpid(p, &st, 0) < 0) { } if (!WIFEXITED(st) || WEXITSTATUS(st)) ++bad_workers; }
    double tsearch = wall() - t0;
    // merge
    static WStat m; memset(&m, 0, sizeof m);
    std::vector<u64> hs; std::vector<std::pair<u64, std::string> > viol;
    std::string detmsg, intmsg;
    for (int j = 0; j < jobs; ++j) {
        WStat& w = ws[j];
        m.runs += w.runs; m.early += w.early; m.nviol += w.nviol; m.ndet += w.ndet; m.detbad += w.detbad; m.steps += w.steps; m.sync += w.sync; m.clock_us += w.clock_us;
        m.switches += w.switches; m.ops += w.ops; m.nontrivial += w.nontrivial; m.internal += w.internal; m.devs += w.devs; m.timeouts += w.timeouts; m.maxfib = std::max(m.maxfib, w.maxfib); m.maxstep = std::max(m.maxstep, w.maxstep);
        for (int k = 0; k < F_NUM; ++k) m.faults[k] += w.faults[k], m.opp[k] += w.opp[k];
        for (int k = 0; k < 32; ++k) m.knownhits[k] += w.knownhits[k];
        for (int k = 0; k < w.nprobe; ++k) {
            int q = 0; for ( ; q < m.nprobe; ++q) if (!strcmp(m.probes[q].name, w.probes[k].name)) break;
            if (q == m.nprobe && q < MAX_PROBE) { strcpy(m.probes[q].name, w.probes[k].name); m.nprobe++; }
            if (q < m.nprobe) { m.probes[q].n += w.probes[k].n; m.probes[q].runs += w.probes[k].runs; }
        }
        for (int k = 0; k < w.nearly; ++k) {
            int q = 0; for ( ; q < m.nearly; ++q) if (!strcmp(m.earlyc[q].name, w.earlyc[k].name)) break;
            if (q == m.nearly && q < 32) { strcpy(m.earlyc[q].name, w.earlyc[k].name); m.nearly++; }
            if (q < 32) m.earlyc[q].n += w.earlyc[k].n;
        }
        for (int k = 0; k < w.nv; ++k) viol.push_back(std::make_pair(w.viol[k].idx, std::string(w.viol[k].cls)));
        if (w.detbad) detmsg = w.detmsg;
        if (w.internal) intmsg = w.intmsg;
        hs.insert(hs.end(), w.hashes, w.hashes + w.nh);
    }
    std::sort(hs.begin(), hs.end());
    u64 distinct = (u64)(std::unique(hs.begin(), hs.end()) - hs.begin());
    std::sort(viol.begin(), viol.end());
    if (!only.empty()) viol.erase(std::remove_if(viol.begin(), viol.end(), [&](const std::pair<u64, std::string>& v) { return v.second.compare(0, only.size(), only) != 0; }), viol.end());
    // report the first violation that replays
    std::string vcls, vmsg; bool have = false; int unrepro = 0; std::vector<std::string> unreprom;
    for (size_t k = 0; k < viol.size() && !have && k < 6; ++k) {
        Run r; make_case(viol[k].first, r.c);
        Out o, o2;
        run_once(mr, r, true, true, &o);
        run_once(mr, r, true, false, &o2);
        if (o.status != ST_VIOLATION || o2.status != ST_VIOLATION || o.cls != o2.cls || o.log != o2.log || o.sched != o2.sched) { ++unrepro; unreprom.push_back("run " + std::to_string(viol[k].first) + " class " + viol[k].second + " did not repeat"); continue; }
        r.dev = o.dev; r.frec = o.frec;
        Out o3;
        if (!try_replay(r, o.cls, o3)) { ++unrepro; unreprom.push_back("run " + std::to_string(viol[k].first) + " class " + viol[k].second + " did not replay"); continue; }
        size_t no = r.c.ops.size(), nd = r.dev.size(), nf = r.frec.size();
        minimise(r, o.cls, minb);
        Out f1, f2;
        run_once(mr, r, false, true, &f1); run_once(mr, r, false, false, &f2);
        if (!same(f1, o.cls) || !same(f2, o.cls) || f1.log != f2.log || f1.sched != f2.sched) { ++unrepro; continue; }
        vcls = f1.cls; vmsg = f1.msg; have = true;
        if (rep) {
            FILE* f = fopen(rep, "w");
            if (f) {
                fprintf(f, "# minimised from %zu ops, %zu schedule deviations, %zu faults\n", no, nd, nf);
                fputs(case_text(r, &f1, viol[k].first).c_str(), f); fclose(f);
            }
        }
        printf("violation class=%s run=%llu ops %zu->%zu devs %zu->%zu faults %zu->%zu\n  %s\n", vcls.c_str(), viol[k].first, no, r.c.ops.size(), nd, r.dev.size(), nf, r.frec.size(), vmsg.c_str());
    }
    if (out) {
        FILE* f = fopen(out, "w");
        if (!f) { perror(out); return 3; }
        fprintf(f, "{\"runs\":%llu,\"planned_runs\":%d,\"early\":%llu,\"violations\":%llu,\"unreproducible\":%d,\"determinism_checked\":%llu,\"determinism_bad\":%llu,\"internal\":%llu,\"bad_workers\":%d,",
                m.runs, runs, m.early, m.nviol, unrepro, m.ndet, m.detbad, m.internal, bad_workers);
        fprintf(f, "\"steps\":%llu,\"sync_steps\":%llu,\"sim_us\":%llu,\"switches\":%llu,\"sched_deviations\":%llu,\"ops\":%llu,\"nontrivial\":%llu,\"distinct\":%llu,\"max_threads\":%llu,\"time_capped_workers\":%llu,\"search_s\":%.3f,",
                m.steps, m.sync, m.clock_us, m.switches, m.devs, m.ops, m.nontrivial, distinct, m.maxfib, m.timeouts, tsearch);
        fprintf(f, "\"faults\":{"); bool first = true;
        for (int k = 0; k < F_NUM; ++k) if (m.opp[k]) { fprintf(f, "%s\"%s\":{\"injected\":%lu,\"opportunities\":%lu}", first ? "" : ",", fault_names[k], m.faults[k], m.opp[k]); first = false; }
        fprintf(f, "},\"probes\":{"); first = true;
        for (int k = 0; k < m.nprobe; ++k) { fprintf(f, "%s%s:{\"hits\":%lu,\"runs\":%lu}", first ? "" : ",", jstr(m.probes[k].name).c_str(), m.probes[k].n, m.probes[k].runs); first = false; }
        fprintf(f, "},\"early_outcomes\":{"); first = true;
        for (int k = 0; k < m.nearly; ++k) { fprintf(f, "%s%s:%lu", first ? "" : ",", jstr(m.earlyc[k].name).c_str(), m.earlyc[k].n); first = false; }
        fprintf(f, "},\"known_hits\":[");
        for (size_t k = 0; k < known.size(); ++k) fprintf(f, "%s%lu", k ? "," : "", m.knownhits[k]);
        fprintf(f, "],\"samples\":[");
        for (int k = 0; k < 2; ++k) { Run r; make_case((u64)k, r.c); std::string t = case_text(r, NULL, (u64)k); if (t.size() > 3000) t = t.substr(0, 3000) + "..."; fprintf(f, "%s%s", k ? "," : "", jstr(t).c_str()); }
        fprintf(f, "],\"violation\":%s,\"violation_msg\":%s,\"detmsg\":%s,\"intmsg\":%s,\"unrepro_msgs\":[", have ? jstr(vcls).c_str() : "null", jstr(vmsg).c_str(), jstr(detmsg).c_str(), jstr(intmsg).c_str());
        for (size_t k = 0; k < unreprom.size(); ++k) fprintf(f, "%s%s", k ? "," : "", jstr(unreprom[k]).c_str());
        fprintf(f, "]}\n");
        fclose(f);
    }
    printf("runs=%llu distinct=%llu early=%llu viol=%llu unrepro=%d det=%llu/%llu bad steps=%llu sync=%llu maxstep=%llu sim=%.3fs t=%.2fs\n", m.runs, distinct, m.early, m.nviol, unrepro, m.detbad, m.ndet, m.steps, m.sync, m.maxstep, m.clock_us * 1e-6, wall() - t0);
    if (!detmsg.empty()) printf("DET %s\n", detmsg.c_str());
    if (!intmsg.empty()) printf("INTERNAL %s\n", intmsg.c_str());
    for (auto& s : unreprom) printf("UNREPRO %s\n", s.c_str());
    { std::map<std::string, int> cc; for (auto& v : viol) cc[v.second]++; for (auto& q : cc) printf("CLASS %s x%d\n", q.first.c_str(), q.second); }
    if (have) return 1;
    if (unrepro || m.detbad || m.internal || bad_workers) return 2;
    return 0;
}
