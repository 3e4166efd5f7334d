// File-backed vectors across process lifetimes (C25). Every phase is a process of its own: it opens the file of the
// earlier one, works on it and ends by a clean destruction or is killed (at a write, in the middle of one, at a
// truncation, between two steps of the program). Then the file is compared byte for byte with what had to be on it.
#include "cont.h"
#include <stxxl/vector>
#include <stxxl/bits/io/create_file.h>
#include <memory>
using namespace chk;
using sim::u64;

namespace {
enum { SET, GET, PUSH, POP, RESIZE, SHRINK, RESERVE, FLUSH, CLEAR, BUFWRITE, BUFREAD, ITER, REOPEN, KILL, NOPS };
const char* opn[] = { "set", "get", "push_back", "pop_back", "resize", "resize-shrink", "reserve", "flush", "clear", "buffered-write", "buffered-read", "iterate", "destroy+recreate", "kill" };
const int MAXN = 1200, NC = 6;

// what the file may hold, and what the vector holds now; lives through all phases
struct El { unsigned char n; bool wild, known; u64 cand[NC], cur; }; // wild: anything may be on disk; known: cur is set
struct State
{
    u64 next; long n, safe; // elements now; elements a later process can count on
    bool clean, opened, rdonly; u64 len; El e[MAXN];
    void see(El& x, u64 v) { for (int i = 0; i < x.n; ++i) if (x.cand[i] == v) return; if (x.n == NC) x.wild = true; else x.cand[x.n++] = v; }
    void set(long i, u64 v) { El& x = e[i]; see(x, v); x.cur = v; x.known = true; }
    void unknown(long from, long to) { for (long i = from; i < to; ++i) { e[i].known = false; e[i].wild = true; } }
    void resize(long k) { if (k > n) unknown(n, k); else unknown(k, n); n = k; if (safe > n) safe = n; }
    void persisted() { for (long i = 0; i < n; ++i) { e[i].wild = !e[i].known; e[i].n = e[i].known; e[i].cand[0] = e[i].cur; } safe = n; }
};

template <class V>
struct Run
{
    typedef typename V::value_type T; typedef typename V::block_type block;
    State& s; const sim::Case& c; long maxn; V* v; stxxl::file* f;
    Run(State& s_, const sim::Case& c_) : s(s_), c(c_), v(NULL), f(NULL) { maxn = std::min<long>(MAXN, c.get("maxblocks", 3) * (long)block::size + 3); }
    static const char* path() { return "/sim/persist"; }
    stxxl::file* open(bool rd)
    {
        long ty = c.get("ftype");
        int fl = (rd ? stxxl::file::RDONLY : stxxl::file::CREAT | stxxl::file::RDWR) | (c.get("fdirect") && ty < 2 ? stxxl::file::DIRECT : 0) | (c.get("fsync") ? stxxl::file::SYNC : 0);
        return stxxl::create_file(ty == 0 ? "syscall" : ty == 1 ? "linuxaio" : "mmap", path(), fl, 0);
    }
    void chkel(const T& x, long i, const char* how)
    {
        sim::NoPreempt np; El& e = s.e[i];
        if (!e.known) return;
        SIM_CHECK(x.v == e.cur, "wrong-element", "%s: element %ld is %llu, expected %llu", how, i, x.v, e.cur);
        SIM_CHECK(x.ok(), "torn-element", "%s: element %ld is damaged", how, i);
    }
    // the file as the next process finds it; what is there is what this process starts from
    void check_file(int phase, bool power)
    {
        sim::NoPreempt np;
        sim::VStat st = sim::vfs_stat(path());
        if (!st.exists) { SIM_CHECK(s.safe == 0, "file-lost", "the file does not exist"); s.n = s.safe = 0; return; }
        SIM_CHECK(st.size >= (u64)s.safe * sizeof(T) || power, "file-too-short", "phase %d: the file has %llu bytes, %ld elements of %zu bytes had been flushed", phase, st.size, s.safe, sizeof(T));
        if (s.clean && !power) SIM_CHECK(st.size == (u64)s.n * sizeof(T), "file-size", "phase %d: the file has %llu bytes after the vector of %ld elements was destroyed", phase, st.size, s.n);
        if (s.rdonly && !power) SIM_CHECK(st.size == s.len, "rdonly-changed", "a vector on a read-only file changed its length from %llu to %llu", s.len, st.size);
        long checked = 0;
        for (long i = 0; i < s.safe; ++i) {
            El& e = s.e[i];
            T x; memset((void*)&x, 0, sizeof x);
            size_t got = sim::vfs_read(path(), (u64)i * sizeof(T), &x, sizeof(T));
            if (e.wild) { e.known = got == sizeof(T) && x.ok() && x.v != 0; e.n = e.known; e.cand[0] = e.cur = x.v; e.wild = !e.known; continue; }
            SIM_CHECK(got == sizeof(T), "file-too-short", "phase %d: element %ld had been flushed, the file ends before it (%llu bytes)", phase, i, st.size);
            if (!s.clean && e.n > 1 && !x.ok()) { // killed while it was being overwritten: a mixture of old and new bytes
                for (size_t b = 0; b < sizeof(T); ++b) {
                    bool ok = false;
                    for (int k = 0; k < e.n && !ok; ++k) { T y(e.cand[k]); ok = ((const char*)&x)[b] == ((const char*)&y)[b]; }
                    SIM_CHECK(ok, "torn-element", "phase %d: element %ld with value %llu is damaged: byte %zu is of none of the values written to it", phase, i, x.v, b);
                }
                s.unknown(i, i + 1); sim::probe("element-torn-by-kill"); continue;
            }
            bool ok = false; for (int k = 0; k < e.n; ++k) ok = ok || x.v == e.cand[k];
            SIM_CHECK(ok, s.clean ? "lost-after-close" : "lost-after-kill", "phase %d: element %ld is %llu on the file; the last flushed value is %llu (%d values were written since)", phase, i, x.v, e.cand[0], e.n - 1);
            SIM_CHECK(x.ok(), "torn-element", "phase %d: element %ld with value %llu is damaged", phase, i, x.v);
            e.n = 1; e.cand[0] = e.cur = x.v; e.known = true; ++checked;
        }
        if (checked) sim::probe(s.clean ? "elements-after-close" : power ? "elements-after-power-loss" : "elements-after-kill", (unsigned long)checked);
        if (!s.clean) s.n = s.safe;
    }
    void create(bool rd, long how)
    {
        // after a kill the file may be longer than the vector was
        bool implicit = s.clean && how % 2 && sim::vfs_stat(path()).size == (u64)s.n * sizeof(T);
        s.clean = false;
        f = open(rd);
        v = implicit ? new V(f, (typename V::size_type)-1, (stxxl::unsigned_type)c.get("npages", 1)) : new V(f, (typename V::size_type)s.n, (stxxl::unsigned_type)c.get("npages", 1));
        SIM_CHECK((long)v->size() == s.n, "wrong-size", "a vector opened on the file of %ld elements has %ld", s.n, (long)v->size());
    }
    void destroy()
    {
        V* d = v; v = NULL; delete d;
        s.persisted(); s.clean = true;
        stxxl::file* g = f; f = NULL; delete g;
    }
    void step(const sim::Op& o)
    {
        V& w = *v; const V& cw = w; long n = s.n, a = n ? o.a[1] % n : 0;
        switch (o.code) {
        case SET: for (long k = 0; n && k <= o.a[3] % 4; ++k) { long i = (a + k * o.a[2]) % n; u64 x = s.next++; s.set(i, x); w[(size_t)i] = T(x); } break;
        case GET: for (long k = 0; n && k <= o.a[3] % 4; ++k) { long i = (a + k * o.a[2]) % n; chkel(cw[(size_t)i], i, "operator[]"); } break;
        case PUSH: for (long k = 0; k <= o.a[1] % 12 && s.n < maxn; ++k) { u64 x = s.next++; s.resize(s.n + 1); s.set(s.n - 1, x); w.push_back(T(x)); } break;
        case POP: for (long k = 0; k <= o.a[1] % 6 && s.n; ++k) { chkel(cw.back(), s.n - 1, "back"); s.resize(s.n - 1); w.pop_back(); } break;
        case RESIZE: s.resize(o.a[1] % (maxn + 1)); w.resize((size_t)s.n); break;
        case SHRINK: s.resize(n ? o.a[1] % (n + 1) : 0); w.resize((size_t)s.n, true); break;
        case RESERVE: w.reserve((size_t)(o.a[1] % (maxn + 1))); break;
        case FLUSH: w.flush(); s.persisted(); break;
        case CLEAR: if (o.a[1] % 4) break; s.resize(0); w.clear(); break;
        case BUFWRITE: {
            long cnt = o.a[2] % (3 * (long)block::size); if (a + cnt > maxn) cnt = maxn - a;
            typename V::bufwriter_type wr(w.begin() + a, (stxxl::unsigned_type)(o.a[3] % 4));
            for (long i = a; i < a + cnt; ++i) { u64 x = s.next++; if (i >= s.n) s.resize(i + 1); s.set(i, x); wr << T(x); }
            if (o.a[4] % 2) wr.finish();
            break;
        }
        case BUFREAD: {
            typename V::bufreader_type rd(cw.begin() + a, cw.begin() + n, (stxxl::unsigned_type)(o.a[3] % 4));
            for (long i = a; i < n; ++i) { T x; rd >> x; chkel(x, i, "buffered reader"); }
            break;
        }
        case ITER: { long i = 0; for (typename V::iterator it = w.begin(); it != w.end(); ++it, ++i) { chkel(*it, i, "iteration"); if (i % 7 == o.a[1] % 7) { u64 x = s.next++; s.set(i, x); *it = T(x); } } break; }
        case REOPEN: destroy(); { sim::NoPreempt np; check_file(sim::phase(), false); } create(false, o.a[1]); break;
        case KILL: sim::kill_now();
        }
        if (v) SIM_CHECK((long)v->size() == s.n, "wrong-size", "after %s: size is %ld, expected %ld", opn[o.code], (long)v->size(), s.n);
    }
    void go(int phase, int phases)
    {
        bool last = phase == phases - 1;
        if (phase == 0) {
            sim::vfs_track_durability(c.get("fsync") != 0);
            long pre = c.get("pre") % (maxn + 1);
            s.next = 1; s.clean = true;
            if (pre) { // a file the user has
                sim::NoPreempt np;
                for (long i = 0; i < pre; ++i) { T x(s.next); s.resize(i + 1); s.set(i, s.next++); sim::vfs_poke(path(), (u64)i * sizeof(T), &x, sizeof x); }
                s.persisted();
            }
        }
        else {
            bool power = c.get("fsync") && c.get("power") && (!s.clean || c.get("power") == 2);
            if (power) { sim::vfs_power_loss((u64)c.get("s.seed") * 31 + (u64)phase); sim::probe("power-loss"); }
            check_file(phase, power);
        }
        sim::probe(s.clean ? "phase-after-close" : "phase-after-kill");
        bool rd = c.get("rdphase", -1) == phase && sim::vfs_stat(path()).exists && s.n > 0;
        bool wasrd = s.rdonly; s.rdonly = false; (void)wasrd;
        if (rd && sim::vfs_stat(path()).size != (u64)s.n * sizeof(T)) rd = false;
        setup_disks(c);
        sim::faults_on(!last);
        create(rd, c.get("implicit"));
        if (rd) {
            sim::probe("read-only-phase");
            s.len = sim::vfs_stat(path()).size; s.rdonly = true; s.clean = true;
            const V& cv = *v;
            for (long i = 0; i < s.n; ++i) chkel(cv[(size_t)i], i, "read-only vector");
            V* d = v; v = NULL; delete d; delete f; f = NULL;
            check_file(phase, false);
            return;
        }
        for (size_t k = 0; k < c.ops.size(); ++k) if (c.ops[k].a[5] == phase) step(c.ops[k]);
        const V& cv = *v;
        if (last || c.get("readall")) for (long i = 0; i < s.n; ++i) chkel(cv[(size_t)i], i, "at the end");
        long end = last ? 0 : c.get("end") >> (2 * phase) & 3;
        if (end == 3) sim::kill_now();
        destroy();
        if (end == 2) sim::kill_now(); // right afterwards
        if (last) check_file(phase + 1, false);
    }
};

struct H : sim::Harness
{
    const char* name() { return "persist"; }
    std::string describe(const sim::Op& o) { char b[120]; snprintf(b, sizeof b, "process %ld: %s (%ld %ld %ld %ld)", o.a[5], o.code < NOPS ? opn[o.code] : "?", o.a[1], o.a[2], o.a[3], o.a[4]); return b; }
    void generate(sim::Rng& r, sim::Case& c, bool thorough)
    {
        sim::gen_schedule(r, c, r.chance(1, 5));
        DiskGen g; g.maxd = 1; gen_disks(r, c, g);
        gen_env_faults(r, c);
        long ph = r.range(2, thorough ? 5 : 4);
        if (r.chance(3, 4)) sim::gen_fault(c, sim::F_KILL, r.pick({ 20L, 100L, 400L, 1500L }));
        c.set("phases", ph); c.set("cfg", r.range(0, 3)); c.set("npages", r.pick({ 1L, 1L, 2L, 3L })); c.set("maxblocks", r.pick({ 1L, 3L, 8L, 17L }));
        c.set("ftype", r.range(0, 2)); c.set("fdirect", r.range(0, 1)); c.set("fsync", r.range(0, 1)); c.set("power", r.range(0, 2));
        c.set("pre", r.chance(1, 2) ? (long)r.below(2000) : 0); c.set("end", (long)r.below(1 << 10)); c.set("implicit", r.range(0, 1)); c.set("readall", r.range(0, 1));
        c.set("rdphase", r.chance(1, 5) ? r.range(1, ph - 1) : -1); c.set("s.limit", 2000000);
        unsigned mask = (unsigned)r.next() | 1u << FLUSH;
        for (long p = 0; p < ph; ++p) {
            long n = r.range(1, thorough ? 24 : 12);
            for (long i = 0; i < n; ++i) {
                int op = (int)r.range(0, NOPS - 2);
                if (!(mask >> op & 1) && r.chance(7, 8)) op = r.pick({ (int)SET, (int)PUSH, (int)BUFWRITE });
                if (r.chance(1, 30)) op = KILL;
                c.ops.push_back(sim::Op(op, 0, (long)r.below(1000000), (long)r.below(1000), (long)r.below(1000), (long)r.below(1000), p));
            }
        }
    }
    int phases(const sim::Case& c) { return (int)c.get("phases", 2); }
    void run(const sim::Case&) { }
    template <class V> void go(const sim::Case& c, int p)
    {
        size_t len; State* s = (State*)sim::shared_scratch(&len);
        SIM_CHECK(len >= sizeof(State), "internal", "scratch memory too small");
        std::unique_ptr<Run<V> > r(new Run<V>(*s, c)); r->go(p, phases(c));
    }
    void run_phase(const sim::Case& c, int p)
    {
        switch (c.get("cfg")) {
        case 0: go<stxxl::VECTOR_GENERATOR<Elem<512>, 1, 2, 4096, stxxl::striping, stxxl::lru>::result>(c, p); break;
        case 1: go<stxxl::VECTOR_GENERATOR<Elem<64>, 2, 2, 4096, stxxl::RC, stxxl::random>::result>(c, p); break;
        case 2: go<stxxl::VECTOR_GENERATOR<Elem<512>, 3, 2, 8192, stxxl::FR, stxxl::lru>::result>(c, p); break;
        default: go<stxxl::VECTOR_GENERATOR<Elem<128>, 4, 1, 4096, stxxl::SR, stxxl::random>::result>(c, p); break;
        }
    }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
