// Synchronisation primitives (C27): several client threads on each primitive, every call recorded with its
// invocation and response; the history has to be linearizable against a sequential model of the primitive, and
// every blocked call has to return once its condition holds for good (else the run deadlocks).
#include "common.h"
#include <stxxl/bits/common/semaphore.h>
#include <stxxl/bits/common/onoff_switch.h>
#include <stxxl/bits/common/state.h>
#include <stxxl/bits/common/mutex.h>
#include <stxxl/bits/common/condition_variable.h>
#include <stxxl/bits/common/counting_ptr.h>
#include <deque>
#include <set>
#include <sstream>
using namespace chk;
using sim::u64;

namespace {
// ---- histories ----
enum { UP, DOWN, DEC, SON, SOFF, ISON, WON, WOFF, SET, GET, WAIT };
const char* calls[] = { "++", "--", "decrement", "on", "off", "is_on", "wait_for_on", "wait_for_off", "set_to", "get", "wait_for" };
struct Call { int code; long arg, res; u64 inv, ret; };
typedef std::vector<std::vector<Call> > History; // per thread

bool apply(const Call& c, long& s)
{
    switch (c.code) {
    case UP: return c.res == ++s;
    case DOWN: if (s <= 0) return false; return c.res == --s;
    case DEC: return c.res == --s;
    case SON: s = 1; return true;
    case SOFF: s = 0; return true;
    case ISON: case GET: return c.res == s;
    case WON: return s == 1;
    case WOFF: return s == 0;
    case SET: s = c.arg; return true;
    case WAIT: return s == c.arg;
    }
    return false;
}
struct Lin
{
    const History& h; std::set<std::pair<std::vector<unsigned>, long> > seen; std::vector<unsigned> at;
    Lin(const History& h_) : h(h_), at(h_.size()) { }
    bool search(long s)
    {
        u64 minret = ~0ull; bool any = false;
        for (size_t t = 0; t < h.size(); ++t) if (at[t] < h[t].size()) { any = true; minret = std::min(minret, h[t][at[t]].ret); }
        if (!any) return true;
        if (!seen.insert(std::make_pair(at, s)).second) return false;
        for (size_t t = 0; t < h.size(); ++t) {
            if (at[t] >= h[t].size()) continue;
            const Call& c = h[t][at[t]]; long n = s;
            if (c.inv > minret || !apply(c, n)) continue;
            ++at[t]; bool ok = search(n); --at[t];
            if (ok) return true;
        }
        return false;
    }
};
void linearizable(const History& h, long init, const char* what)
{
    sim::NoPreempt np;
    Lin l(h);
    if (l.search(init)) return;
    std::ostringstream o;
    for (size_t t = 0; t < h.size(); ++t) { o << " T" << t << ":"; for (size_t i = 0; i < h[t].size(); ++i) o << " " << calls[h[t][i].code] << "(" << h[t][i].arg << ")=" << h[t][i].res << "[" << h[t][i].inv << "," << h[t][i].ret << "]"; }
    sim::violation("not-linearizable", "%s, initially %ld: no order explains%s", what, init, o.str().c_str());
}
struct Rec
{
    std::vector<Call>& v; Call c;
    Rec(std::vector<Call>& v_, int code, long arg = 0) : v(v_) { c.code = code, c.arg = arg, c.res = 0, c.inv = sim::seq(), c.ret = 0; }
    void done(long r = 0) { c.res = r; c.ret = sim::seq(); sim::NoPreempt np; v.push_back(c); }
};
void nap(long n) { for (long i = 0; i < n; ++i) sim::yield(); }

// ---- counted objects ----
long g_objs, g_freed;
struct Obj : stxxl::atomic_counted_object
{
    u64 magic, value;
    Obj(u64 v) : magic(0x0B7EC7), value(v) { sim::NoPreempt np; ++g_objs; }
    Obj(const Obj& o) : stxxl::atomic_counted_object(o), magic(0x0B7EC7), value(o.value) { sim::NoPreempt np; ++g_objs; }
    ~Obj() { SIM_CHECK(magic == 0x0B7EC7, "freed-twice", "object %llu freed twice", value); magic = 0xDEAD; sim::NoPreempt np; ++g_freed; }
};
typedef stxxl::counting_ptr<Obj> ptr;
typedef stxxl::const_counting_ptr<Obj> cptr;

enum { SEM, SWITCH, STATE, MUTEX, BUFFER, PTR, NKIND };
const char* kinds[] = { "semaphore", "switch", "state", "mutex", "condition variable", "counting_ptr" };

struct Sync : sim::Harness
{
    const char* name() { return "sync"; }
    // op: a[0] thread, a[1..4] arguments
    void generate(sim::Rng& r, sim::Case& c, bool thorough)
    {
        sim::gen_schedule(r, c, r.chance(2, 3));
        if (r.chance(2, 3)) sim::gen_fault(c, sim::F_SPURIOUS, r.pick({ 50L, 500L, 3000L }));
        if (r.chance(1, 4)) sim::gen_fault(c, sim::F_CLOCK_JUMP, 300);
        long kind = r.pick({ (long)SEM, (long)SEM, (long)SWITCH, (long)STATE, (long)MUTEX, (long)BUFFER, (long)PTR, (long)PTR });
        long t = r.range(2, thorough ? 6 : 4);
        c.set("kind", kind); c.set("threads", t); c.set("init", r.pick({ 0L, 0L, 1L, 2L, -1L })); c.set("cap", r.range(1, 3)); c.set("values", r.range(2, 4));
        c.set("s.limit", 200000);
        long n = r.range(2, thorough ? 24 : 14);
        for (long i = 0; i < n; ++i) c.ops.push_back(sim::Op((int)kind, (long)r.below((u64)t), (long)r.below(100), (long)r.below(100), (long)r.below(100), (long)r.below(4)));
    }
    std::string describe(const sim::Op& o)
    {
        char b[100]; snprintf(b, sizeof b, "%s thread %ld args %ld %ld %ld pause %ld", o.code < NKIND ? kinds[o.code] : "?", o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]); return b;
    }
    typedef std::vector<std::vector<sim::Op> > Prog;
    static void join_all(std::vector<int>& ids) { for (size_t i = 0; i < ids.size(); ++i) sim::join(ids[i]); ids.clear(); }

    void semaphore(const sim::Case& c, const Prog& pr)
    {
        long init = c.get("init"), need = init < 0 ? -init : 0, decs = 0;
        stxxl::semaphore s((int)init);
        History h(pr.size() + 1); std::vector<int> ids;
        for (size_t t = 0; t < pr.size(); ++t) for (size_t i = 0; i < pr[t].size(); ++i) { long k = pr[t][i].a[1] % 5; if (k < 2) ++need; if (k == 4) ++need, ++decs; }
        for (size_t t = 0; t < pr.size(); ++t) {
            const std::vector<sim::Op>* p = &pr[t]; std::vector<Call>* v = &h[t]; stxxl::semaphore* sp = &s;
            ids.push_back(sim::spawn([p, v, sp]() {
                for (size_t i = 0; i < p->size(); ++i) {
                    nap((*p)[i].a[4]);
                    switch ((*p)[i].a[1] % 5) {
                    case 0: case 1: { Rec r(*v, DOWN); r.done((*sp)--); break; }
                    case 2: case 3: { Rec r(*v, UP); r.done((*sp)++); break; }
                    case 4: { Rec r(*v, DEC); r.done(sp->decrement()); break; }
                    }
                }
            }, "client"));
        }
        // as many ups as it takes for every down to return, whatever the others do
        for (long i = 0; i < need; ++i) { if (i % 3 == 0) sim::yield(); Rec r(h[pr.size()], UP); r.done(s++); }
        join_all(ids);
        if (decs) sim::probe("semaphore-decrement");
        linearizable(h, init, "semaphore");
    }
    // the switch notifies one waiter: several waiters only for the same state, with one call for each of them
    void onoff(const sim::Case& c, const Prog& pr)
    {
        long init = c.get("init") > 0;
        stxxl::onoff_switch s(init != 0); stxxl::onoff_switch* sp = &s;
        size_t rounds = 0;
        for (size_t t = 0; t < pr.size(); ++t) rounds = std::max(rounds, pr[t].size());
        History h(pr.size() * (rounds + 1) + 1); size_t row = 0; std::vector<Call>& mine = h[h.size() - 1];
        for (size_t k = 0; k < rounds; ++k) {
            std::vector<int> w, tog; int want = 0; size_t waiters = 1 + k % 2; if (pr.size() < 3) waiters = 1;
            for (size_t t = 0; t < pr.size() && t < waiters; ++t) {
                if (k < pr[0].size()) want = (int)(pr[0][k].a[1] % 2);
                std::vector<Call>* v = &h[row++]; long pause = k < pr[t].size() ? pr[t][k].a[4] : 0;
                w.push_back(sim::spawn([v, sp, want, pause]() { nap(pause); Rec r(*v, want ? WON : WOFF); if (want) sp->wait_for_on(); else sp->wait_for_off(); r.done(); }, "waiter"));
            }
            for (size_t t = waiters; t < pr.size(); ++t) if (k < pr[t].size()) {
                const sim::Op* o = &pr[t][k]; std::vector<Call>* v = &h[row++];
                // with several waiters the others only go to the wanted state
                bool one = waiters == 1;
                tog.push_back(sim::spawn([o, v, sp, want, one]() {
                    for (long j = 0; j < 1 + o->a[2] % 3; ++j) {
                        nap(o->a[4]);
                        long what = (o->a[3] + j) % 3;
                        if (what == 2) { Rec r(*v, ISON); r.done(sp->is_on()); }
                        else if (one ? what == 1 : want == 1) { Rec r(*v, SON); sp->on(); r.done(); }
                        else { Rec r(*v, SOFF); sp->off(); r.done(); }
                    }
                }, "switcher"));
            }
            join_all(tog);
            for (size_t i = 0; i < w.size(); ++i) { Rec r(mine, want ? SON : SOFF); if (want) s.on(); else s.off(); r.done(); }
            join_all(w);
            if (waiters > 1) sim::probe("switch-two-waiters");
        }
        linearizable(h, init, "onoff_switch");
    }
    void state(const sim::Case& c, const Prog& pr)
    {
        long vals = c.get("values", 2), init = c.get("init") > 0;
        stxxl::state<int> s((int)init); stxxl::state<int>* sp = &s;
        size_t rounds = 0;
        for (size_t t = 0; t < pr.size(); ++t) rounds = std::max(rounds, pr[t].size());
        History h(pr.size() * rounds + 1); size_t row = 0; std::vector<Call>& mine = h[h.size() - 1];
        for (size_t k = 0; k < rounds; ++k) {
            std::vector<int> set; std::vector<std::vector<int> > w((size_t)vals);
            for (size_t t = 0; t < pr.size(); ++t) if (k < pr[t].size()) {
                const sim::Op* o = &pr[t][k]; std::vector<Call>* v = &h[row++]; long val = o->a[2] % vals;
                if (o->a[1] % 2 == 0) w[(size_t)val].push_back(sim::spawn([o, v, sp, val]() { nap(o->a[4]); Rec r(*v, WAIT, val); sp->wait_for((int)val); r.done(); }, "waiter"));
                else set.push_back(sim::spawn([o, v, sp, val, vals]() {
                    for (long j = 0; j < 1 + o->a[3] % 3; ++j) {
                        nap(o->a[4]);
                        if ((o->a[3] + j) % 4 == 3) { Rec r(*v, GET); r.done((*sp)()); }
                        else { Rec r(*v, SET, (val + j) % vals); sp->set_to((int)((val + j) % vals)); r.done(); }
                    }
                }, "setter"));
            }
            join_all(set);
            for (long v = 0; v < vals; ++v) { // all waiters of the state reached return
                if (w[(size_t)v].empty()) continue;
                if (w[(size_t)v].size() > 1) sim::probe("state-several-waiters");
                Rec r(mine, SET, v); s.set_to((int)v); r.done();
                join_all(w[(size_t)v]);
            }
        }
        linearizable(h, init, "state");
    }
    void mutex(const sim::Case&, const Prog& pr)
    {
        stxxl::mutex m; stxxl::mutex* mp = &m;
        struct Sh { volatile long inside, count; } sh = { 0, 0 }; volatile Sh* sp = &sh;
        std::vector<int> ids; long total = 0;
        for (size_t t = 0; t < pr.size(); ++t) {
            total += (long)pr[t].size();
            const std::vector<sim::Op>* p = &pr[t];
            ids.push_back(sim::spawn([p, mp, sp]() {
                for (size_t i = 0; i < p->size(); ++i) {
                    nap((*p)[i].a[4]);
                    auto inside = [&]() {
                        long was = sp->inside; sp->inside = was + 1; long n = sp->count;
                        SIM_CHECK(was == 0, "not-exclusive", "%ld other threads hold the mutex", was);
                        nap((*p)[i].a[2] % 3);
                        SIM_CHECK(sp->count == n, "not-exclusive", "the counter changed while the mutex was held");
                        sp->count = n + 1; sp->inside = 0;
                    };
                    switch ((*p)[i].a[1] % 3) {
                    case 0: mp->lock(); inside(); mp->unlock(); break;
                    case 1: { stxxl::scoped_mutex_lock l(*mp); inside(); break; }
                    case 2: { stxxl::scoped_mutex_lock l(*mp); inside(); l.unlock(); nap(1); if ((*p)[i].a[3] % 2) { stxxl::scoped_fast_mutex_lock l2(*mp); nap(1); } break; }
                    }
                }
            }, "client"));
        }
        join_all(ids);
        SIM_CHECK(sh.count == total, "lost-update", "%ld of %ld increments", sh.count, total);
    }
    void buffer(const sim::Case& c, const Prog& pr) // bounded buffer: producers and consumers
    {
        struct B
        {
            stxxl::mutex m; stxxl::condition_variable nonempty, nonfull; std::deque<long> q; size_t cap;
            void put(long v)
            {
                stxxl::scoped_mutex_lock l(m);
                while (q.size() >= cap) nonfull.wait(l);
                q.push_back(v); bool all = v % 5 == 0; if (v % 2) l.unlock();
                if (all) nonempty.notify_all(); else nonempty.notify_one();
            }
            long get()
            {
                stxxl::scoped_mutex_lock l(m);
                while (q.empty()) nonempty.wait(l);
                long v = q.front(); q.pop_front(); if (v % 3) l.unlock();
                nonfull.notify_one(); return v;
            }
        } b;
        b.cap = (size_t)c.get("cap", 1); B* bp = &b;
        std::vector<int> ids; long n = 0; size_t prod = std::max<size_t>(1, pr.size() / 2);
        for (size_t t = 0; t < pr.size(); ++t) n += (long)pr[t].size();
        std::vector<std::vector<long> > got(pr.size() + 1);
        for (size_t t = 0; t < prod; ++t) {
            long from = n * (long)t / (long)prod, to = n * (long)(t + 1) / (long)prod;
            ids.push_back(sim::spawn([bp, from, to]() { for (long v = from; v < to; ++v) { nap(v % 3); bp->put(v); } }, "producer"));
        }
        size_t cons = pr.size() - prod; if (!cons) cons = 1;
        for (size_t t = 0; t < cons; ++t) {
            long k = n * (long)(t + 1) / (long)cons - n * (long)t / (long)cons; std::vector<long>* g = &got[t];
            ids.push_back(sim::spawn([bp, k, g, t]() { for (long i = 0; i < k; ++i) { nap((long)t); g->push_back(bp->get()); } }, "consumer"));
        }
        join_all(ids);
        std::vector<int> seen((size_t)n);
        for (size_t t = 0; t < cons; ++t) {
            std::vector<long> last(prod, -1);
            for (size_t i = 0; i < got[t].size(); ++i) {
                long v = got[t][i]; size_t p = 0; while (v >= n * (long)(p + 1) / (long)prod) ++p;
                SIM_CHECK(++seen[(size_t)v] == 1, "delivered-twice", "item %ld", v);
                SIM_CHECK(v > last[p], "reordered", "item %ld after %ld", v, last[p]); last[p] = v;
            }
        }
        for (long v = 0; v < n; ++v) SIM_CHECK(seen[(size_t)v], "lost", "item %ld", v);
    }
    void pointers(const sim::Case&, const Prog& pr)
    {
        g_objs = g_freed = 0;
        const size_t NS = 3, NL = 3;
        {
            struct Sh { ptr slot[NS]; cptr cslot; stxxl::mutex m; } sh; Sh* sp = &sh;
            sh.slot[0] = ptr(new Obj(1)); sh.slot[1] = sh.slot[0]; sh.cslot = sh.slot[1];
            const ptr common(new Obj(7)); const ptr* cp = &common;
            std::vector<int> ids;
            for (size_t t = 0; t < pr.size(); ++t) {
                const std::vector<sim::Op>* p = &pr[t];
                ids.push_back(sim::spawn([p, sp, cp, t]() {
                    ptr l[NL]; cptr cl; u64 lv[NL] = { 0, 0, 0 }; // and what they should refer to
                    for (size_t i = 0; i < p->size(); ++i) {
                        const sim::Op& o = (*p)[i]; size_t a = (size_t)o.a[2] % NL, b = (size_t)o.a[3] % NL, s = (size_t)o.a[3] % NS;
                        nap(o.a[4]);
                        switch (o.a[1] % 12) {
                        case 0: l[a] = *cp; lv[a] = 7; break;                                   // copy of a pointer all threads copy
                        case 1: { ptr q(*cp); l[a].swap(q); lv[a] = 7; break; }
                        case 2: { u64 v = 100 * (t + 1) + i; l[a] = new Obj(v); lv[a] = v; break; }
                        case 3: l[a] = l[b]; lv[a] = lv[b]; break;                              // also self-assignment
                        case 4: { stxxl::scoped_mutex_lock g(sp->m); sp->slot[s] = l[a]; break; }
                        case 5: { stxxl::scoped_mutex_lock g(sp->m); l[a] = sp->slot[s]; lv[a] = l[a].valid() ? l[a]->value : 0; break; }
                        case 6: { ptr q; { stxxl::scoped_mutex_lock g(sp->m); swap(sp->slot[s], q); } if (q.valid()) SIM_CHECK(q->magic == 0x0B7EC7, "freed-early", "object %llu already freed", q->value); break; } // released outside of the lock
                        case 7: l[a] = ptr(); lv[a] = 0; break;
                        case 8: if (l[a].valid()) { l[a].unify(); SIM_CHECK(l[a]->value == lv[a] && l[a]->magic == 0x0B7EC7, "unify", "unify changed the object: %llu, expected %llu", l[a]->value, lv[a]); } break;
                        case 9: cl = l[a]; if (cl.valid()) SIM_CHECK(cl->value == lv[a], "wrong-object", "constant pointer refers to %llu, expected %llu", cl->value, lv[a]); break;
                        case 10: { stxxl::scoped_mutex_lock g(sp->m); if (o.a[4] % 2) sp->cslot = cl; else cl = sp->cslot; break; }
                        case 11: { cptr q(cl); cptr z(l[a]); cl = cptr(); break; }
                        }
                        for (size_t k = 0; k < NL; ++k) {
                            if (!lv[k]) { SIM_CHECK(l[k].empty() && !l[k], "wrong-object", "an empty pointer refers to something"); continue; }
                            SIM_CHECK(l[k].valid() && l[k]->magic == 0x0B7EC7 && (*l[k]).value == lv[k], "freed-early", "object %llu is not there", lv[k]);
                            SIM_CHECK(l[k]->get_reference_count() >= 1, "reference-count", "object %llu has no references", lv[k]);
                        }
                    }
                }, "client"));
            }
            join_all(ids);
            unsigned long nc = 1; for (size_t i = 0; i < NS; ++i) nc += sh.slot[i] == common;
            nc += sh.cslot == common;
            SIM_CHECK(common->get_reference_count() == nc && common.unique() == (nc == 1), "reference-count", "the common object counts %lu references, there are %lu", (unsigned long)common->get_reference_count(), nc);
            for (size_t i = 0; i < NS; ++i) if (sh.slot[i].valid() && !(sh.slot[i] == common)) {
                unsigned long n = 0; for (size_t j = 0; j < NS; ++j) n += sh.slot[j] == sh.slot[i];
                n += sh.cslot.get() == sh.slot[i].get();
                SIM_CHECK(sh.slot[i]->get_reference_count() == n, "reference-count", "%lu references counted, there are %lu", (unsigned long)sh.slot[i]->get_reference_count(), n);
            }
        }
        SIM_CHECK(g_objs == g_freed, "not-freed", "%ld objects created, %ld freed", g_objs, g_freed);
    }
    void run(const sim::Case& c)
    {
        Prog pr((size_t)c.get("threads", 2));
        for (size_t i = 0; i < c.ops.size(); ++i) pr[(size_t)c.ops[i].a[0] % pr.size()].push_back(c.ops[i]);
        long k = c.get("kind"); sim::probe(kinds[k]);
        sim::faults_on(true);
        switch (k) {
        case SEM: semaphore(c, pr); break;
        case SWITCH: onoff(c, pr); break;
        case STATE: state(c, pr); break;
        case MUTEX: mutex(c, pr); break;
        case BUFFER: buffer(c, pr); break;
        case PTR: pointers(c, pr); break;
        }
    }
};
Sync theh;
}
sim::Harness* sim::harness() { return &theh; }
