// Block scheduler harness (C12): random data-oblivious programs over more blocks than fit in memory, run by the online
// algorithm, or first simulated and then run by the offline algorithms (with and without prefetching).
#include "cont.h"
#include <stxxl/bits/mng/block_scheduler.h>
#include <set>
#ifndef MODE
#define MODE 0
#endif
using namespace chk;

namespace {
const unsigned N = 512;
const u64 DEF = 0xDEFA17;
struct SB : stxxl::swappable_block<u64, N>
{
    void fill_default() { chk::fill(&(*internal_data)[0], N * 8, DEF); }
};
typedef stxxl::block_scheduler<SB> bs_t;
typedef bs_t::internal_block_type iblock;
typedef bs_t::external_block_type eblock;
typedef stxxl::block_scheduler_algorithm<SB> algo_t;
typedef stxxl::block_scheduler_algorithm_online_lru<SB> online_t;
typedef stxxl::block_scheduler_algorithm_simulation<SB> simul_t;
typedef stxxl::block_scheduler_algorithm_offline_lfd<SB> lfd_t;
typedef stxxl::block_scheduler_algorithm_offline_lru_prefetching<SB> pref_t;
typedef bs_t::swappable_block_identifier_type id_t_;

enum { PHASE, ACQ, REL, WRITE, READ, INIT, EXTRACT, DEINIT, TALLOC, TFREE, TSTEP, FLUSH, ISINIT, SLEEP, USE, NOPS };
const char* opn[] = { "phase", "acquire", "release", "write", "read", "initialize", "extract", "deinitialize", "allocate", "free", "timestep", "flush", "is_initialized", "sleep", "acquire+use+release" };
enum { P_ONLINE, P_LFD, P_PREF };
const char* pn[] = { "online", "lfd", "prefetching" };

struct Step { int code; size_t slot; long flag; }; // flag: acquire: uninitialized, release: dirty, is_initialized: expected
struct Dry // state that decides which operations are legal; the same for every data
{
    struct S { bool alloc; int acq; bool init, must, dirty, temp; S() : alloc(false), acq(0), init(false), must(false), dirty(false), temp(false) { } };
    std::vector<S> s;
    size_t acquired() const { size_t n = 0; for (size_t i = 0; i < s.size(); ++i) n += s[i].acq > 0; return n; }
    bool operator == (const Dry& o) const
    {
        for (size_t i = 0; i < s.size(); ++i) if (s[i].alloc != o.s[i].alloc || s[i].init != o.s[i].init || s[i].acq != o.s[i].acq) return false;
        return true;
    }
};

struct Sched : ContHarness
{
    const char* name() { return "sched"; }
    std::string describe(const sim::Op& o)
    {
        char b[100];
        if (o.code == PHASE) snprintf(b, sizeof b, "phase: %s, args %ld %ld", pn[o.a[0] % 3], o.a[1], o.a[2]);
        else snprintf(b, sizeof b, "%s slot %ld arg %ld", o.code < NOPS ? opn[o.code] : "?", o.a[0], o.a[1]);
        return b;
    }
    void gen(sim::Rng& r, sim::Case& c, bool thorough)
    {
        c.set("limit", r.range(1, 5)); c.set("odd", r.chance(1, 4)); c.set("perm", r.range(1, 8)); c.set("temp", r.range(0, 3));
        #ifdef NOPREF
#define P_PREF P_LFD
#endif
        long phases = r.range(1, thorough ? 5 : 4);

        for (long p = 0; p < phases; ++p) {
            c.ops.push_back(sim::Op(PHASE, r.pick({ (long)P_ONLINE, (long)P_LFD, (long)P_LFD, (long)P_PREF, (long)P_PREF, (long)P_PREF, (long)P_PREF }), (long)r.below(100), (long)r.below(100)));
            long n = r.range(2, thorough ? 60 : 30);
            int style = (int)r.below(4); // 0 mostly whole uses, 1 everything, 2 ownership moves a lot, 3 plain
            for (long i = 0; i < n; ++i) {
                long w;
                if (style == 0) w = r.pick({ (long)USE, (long)USE, (long)USE, (long)USE, (long)ACQ, (long)REL, (long)DEINIT });
                else if (style == 1) w = r.pick({ (long)ACQ, (long)ACQ, (long)ACQ, (long)REL, (long)REL, (long)REL, (long)WRITE, (long)READ, (long)INIT, (long)EXTRACT, (long)DEINIT, (long)TALLOC, (long)TFREE, (long)TSTEP, (long)FLUSH, (long)ISINIT, (long)SLEEP, (long)USE, (long)USE });
                else if (style == 2) w = r.pick({ (long)USE, (long)USE, (long)INIT, (long)EXTRACT, (long)DEINIT, (long)TALLOC, (long)TFREE, (long)ISINIT });
                else w = r.pick({ (long)ACQ, (long)ACQ, (long)REL, (long)REL, (long)WRITE, (long)READ, (long)USE, (long)SLEEP });
                c.ops.push_back(sim::Op((int)w, (long)r.below(100), (long)r.below(100)));
            }
        }
    }
    // the legal part of the operations [from, to)
    static void effective(const sim::Case& c, size_t from, size_t to, Dry& d, std::vector<Step>& out, size_t limit)
    {
        size_t n = d.s.size();
        struct L {
            static bool acq(Dry& d, std::vector<Step>& out, size_t limit, size_t i, bool uninit)
            {
                Dry::S& s = d.s[i];
                if (!s.alloc || (s.acq == 0 && d.acquired() >= limit)) return false;
                if (s.acq) uninit = false;
                if (s.acq == 0) { s.must = uninit; s.dirty = false; }
                ++s.acq; Step st = { ACQ, i, uninit }; out.push_back(st);
                if (uninit) { Step w = { WRITE, i, 0 }; out.push_back(w); }
                return true;
            }
            static void rel(Dry& d, std::vector<Step>& out, size_t i, bool dirty)
            {
                Dry::S& s = d.s[i];
                if (s.must) dirty = true;
                s.must = false; s.dirty = s.dirty || dirty;
                Step st = { REL, i, dirty }; out.push_back(st);
                if (--s.acq == 0 && s.dirty) s.init = true;
            }
            static void drop(Dry& d, std::vector<Step>& out, size_t i)
            {
                while (d.s[i].acq) rel(d, out, i, false);
                Step st = { TFREE, i, 0 }; out.push_back(st); d.s[i] = Dry::S(); d.s[i].temp = true;
            }
        };
        for (size_t k = from; k < to; ++k) {
            const sim::Op& o = c.ops[k];
            size_t i = (size_t)o.a[0] % n; Dry::S& s = d.s[i];
            Step st = { o.code, i, 0 };
            switch (o.code) {
            case ACQ: L::acq(d, out, limit, i, o.a[1] % 5 == 0); break;
            case REL: // prefer one that is acquired
                for (size_t j = 0; j < n && !d.s[i].acq; ++j) i = (i + 1) % n;
                if (d.s[i].acq) L::rel(d, out, i, o.a[1] % 3 == 0);
                break;
            case USE:
                if (L::acq(d, out, limit, i, o.a[1] % 7 == 0)) {
                    Step rd = { READ, i, 0 }; out.push_back(rd);
                    if (o.a[1] % 2) { Step wr = { WRITE, i, 0 }; out.push_back(wr); s.must = true; }
                    L::rel(d, out, i, o.a[1] % 11 == 0);
                }
                break;
            case WRITE: if (s.acq) { s.must = true; out.push_back(st); } break;
            case READ: if (s.acq) out.push_back(st); break;
            case INIT: if (s.alloc && !s.acq && !s.init) { s.init = true; out.push_back(st); } break;
            case EXTRACT: if (s.alloc && !s.acq && s.init) { s.init = false; out.push_back(st); } break;
            case DEINIT: if (s.alloc && !s.acq) { s.init = false; out.push_back(st); } break;
            case TALLOC: if (s.temp && !s.alloc) { s.alloc = true; out.push_back(st); } break;
            case TFREE: if (s.temp && s.alloc) L::drop(d, out, i); break;
            case TSTEP: case FLUSH: case SLEEP: st.flag = o.a[1]; out.push_back(st); break;
            case ISINIT: if (s.alloc) { st.flag = s.init || s.acq; out.push_back(st); } break;
            }
        }
        for (size_t i = 0; i < n; ++i) {
            while (d.s[i].acq) L::rel(d, out, i, false);
            if (d.s[i].temp && d.s[i].alloc) L::drop(d, out, i);
        }
    }
    struct X
    {
        struct S { bool alloc, known, init, dirty; id_t_ id; int acq; u64 ver; iblock* p; S() : alloc(false), known(false), init(false), dirty(false), id(0), acq(0), ver(0), p(NULL) { } };
        std::vector<S> s; std::set<iblock*> seen; size_t limit; u64 next; const char* algo; bool simulating;
    };
    void look(X& x, size_t i, const char* how)
    {
        X::S& s = x.s[i];
        if (!s.known) return;
        sim::NoPreempt np;
        long w = check(&(*s.p)[0], N * 8, s.ver);
        SIM_CHECK(w < 0, "block-content", "%s of block %zu (%s): word %ld is %llx, expected version %llx", how, i, x.algo, w, (*s.p)[w], s.ver);
    }
    void exec(bs_t& bs, X& x, const std::vector<Step>& prog, size_t upto, bool may_flush)
    {
        stxxl::block_manager* bm = stxxl::block_manager::get_instance();
        for (size_t k = 0; k < prog.size() && k < upto; ++k) {
            const Step& st = prog[k]; X::S& s = x.s[st.slot]; bool sm = x.simulating;
            switch (st.code) {
            case ACQ: {
                iblock& b = bs.acquire(s.id, st.flag != 0);
                if (sm) break;
                if (s.acq == 0) {
                    for (size_t j = 0; j < x.s.size(); ++j)
                        SIM_CHECK(!x.s[j].acq || x.s[j].p != &b, "block-shared", "blocks %zu and %zu are acquired in the same internal block", st.slot, j);
                    x.seen.insert(&b);
                    SIM_CHECK(x.seen.size() <= x.limit, "memory-limit", "%zu internal blocks are in use, %zu allowed", x.seen.size(), x.limit);
                    s.p = &b; s.dirty = false;
                    if (st.flag) s.known = false;
                    else if (!s.init) s.known = true, s.ver = DEF;
                }
                ++s.acq;
                SIM_CHECK(s.p == &b && &bs.get_internal_block(s.id) == &b, "block-moved", "an acquired block moved");
                look(x, st.slot, "acquire");
                break;
            }
            case REL:
                if (!sm) {
                    look(x, st.slot, "contents before release");
                    s.dirty = s.dirty || st.flag;
                    if (--s.acq == 0) { if (s.dirty) s.init = true; if (!s.init) s.known = false; }
                }
                bs.release(s.id, st.flag != 0);
                break;
            case WRITE: if (!sm) { sim::NoPreempt np; s.ver = x.next++; s.known = true; fill(&(*s.p)[0], N * 8, s.ver); } break;
            case READ: if (!sm) look(x, st.slot, "read"); break;
            case INIT:
                if (sm) bs.initialize(s.id, eblock());
                else {
                    eblock e; bm->new_block(stxxl::striping(), e, (stxxl::unsigned_type)k);
                    iblock* b = new iblock; s.ver = x.next++; s.known = s.init = true; fill(&(*b)[0], N * 8, s.ver);
                    b->write(e)->wait(); delete b;
                    bs.initialize(s.id, e);
                }
                break;
            case EXTRACT: {
                eblock e = bs.extract_external_block(s.id);
                if (sm) break;
                SIM_CHECK(e.valid(), "extract", "extracting initialised block %zu returned no external block", st.slot);
                iblock* b = new iblock; b->read(e)->wait();
                s.p = b; look(x, st.slot, "external block after extraction"); s.p = NULL; delete b;
                bm->delete_block(e); s.init = s.known = false;
                sim::probe("extract");
                break;
            }
            case DEINIT: bs.deinitialize(s.id); if (!sm) s.init = s.known = false; break;
            case TALLOC: { id_t_ id = bs.allocate_swappable_block(); s = X::S(); s.id = id; s.alloc = true; } break;
            case TFREE: bs.free_swappable_block(s.id); s = X::S(); break;
            case TSTEP: bs.explicit_timestep(); break;
            case FLUSH: if (may_flush && !sm) { bs.flush(); sim::probe("flush"); } break;
            case ISINIT: SIM_CHECK(bs.is_initialized(s.id) == (st.flag != 0), "is-initialized", "is_initialized of block %zu is %d (%s)", st.slot, !st.flag, sm ? "simulation" : x.algo); break;
            case SLEEP: if (!sm) sim::sleep_us((u64)st.flag * 30); break;
            }
        }
    }
    void switch_to(bs_t& bs, algo_t* a, algo_t** keep = NULL)
    {
        algo_t* old = bs.switch_algorithm_to(a);
        if (keep) *keep = old; else delete old;
    }
    void body(const sim::Case& c)
    {
        X x; x.limit = (size_t)c.get("limit", 1); x.next = 1000; x.algo = "online"; x.simulating = false;
        size_t perm = (size_t)c.get("perm", 1), temp = (size_t)c.get("temp");
        x.s.resize(perm + temp);
        Dry d; d.s.resize(perm + temp);
        bs_t bs((stxxl::int_type)(x.limit * sizeof(iblock)) - (c.get("odd") ? 17 : 0));
        for (size_t i = 0; i < perm + temp; ++i)
            if (i < perm) { x.s[i].id = bs.allocate_swappable_block(); x.s[i].alloc = d.s[i].alloc = true; }
            else d.s[i].temp = true;
        for (size_t k = 0; k < c.ops.size(); ) {
            size_t to = k + 1; while (to < c.ops.size() && c.ops[to].code != PHASE) ++to;
            const sim::Op& ph = c.ops[k];
            int kind = ph.code == PHASE ? (int)(ph.a[0] % 3) : P_ONLINE;
            std::vector<Step> prog; Dry before = d;
            size_t from = ph.code == PHASE ? k + 1 : k;
            effective(c, from, to, d, prog, x.limit);
            k = to;
            x.algo = pn[kind];
            if (kind == P_ONLINE) { exec(bs, x, prog, prog.size(), true); continue; }
            x.simulating = true;
            simul_t* sm = new simul_t(bs); switch_to(bs, sm);
            { X y = x; exec(bs, y, prog, prog.size(), false); }
            x.simulating = false;
            sim::probe(kind == P_LFD ? "lfd" : "prefetching");
            bool keep = ph.a[1] % 4 == 0; algo_t* kept = NULL;
            algo_t* a = kind == P_LFD ? (algo_t*)new lfd_t(sm) : (algo_t*)new pref_t(sm);
            switch_to(bs, a, keep ? &kept : NULL);
            exec(bs, x, prog, prog.size(), kind == P_LFD);
            if (keep && d == before) { // the same program again with the same prediction
                sim::probe("prediction-reused");
                a = kind == P_LFD ? (algo_t*)new lfd_t(kept) : (algo_t*)new pref_t(kept);
                switch_to(bs, a);
                exec(bs, x, prog, prog.size(), kind == P_LFD);
            }
            if (kind == P_LFD && ph.a[2] % 3 == 0) { // longer than predicted
                std::vector<Step> more;
                effective(c, from, to, d, more, x.limit);
                exec(bs, x, more, more.size(), true);
                sim::probe("beyond-prediction");
            }
            x.algo = "online";
            switch_to(bs, new online_t(bs));
            delete kept;
        }
        // everything once more; some blocks are left to the destructor
        for (size_t i = 0; i < perm; ++i) {
            X::S& s = x.s[i];
            SIM_CHECK(bs.is_initialized(s.id) == s.init, "is-initialized", "is_initialized of block %zu is %d at the end", i, !s.init);
            if (s.init && i % 3 == 0) { std::vector<Step> p; Step e = { EXTRACT, i, 0 }; p.push_back(e); exec(bs, x, p, 1, false); }
            else { std::vector<Step> p; Step e = { ACQ, i, 0 }, f = { REL, i, 0 }; p.push_back(e); p.push_back(f); exec(bs, x, p, 2, false); }
            if (i % 3 == 1) bs.free_swappable_block(s.id);
        }
    }
};
Sched theh;
}
sim::Harness* sim::harness() { return &theh; }
