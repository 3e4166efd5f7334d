// Sorting streams (runs_creator in its three forms, runs_merger, stream::sort, sorter) against the multiset of the elements put in.
#include "cont.h"
#include "par.h"
#include <stxxl/vector>
#include <stxxl/stream>
#include <stxxl/sorter>
#include <algorithm>
#include <memory>
using namespace chk;
namespace {
enum { S_PUSH, S_SORT, S_REUSE, S_REWIND, S_READ, S_CLEAR, S_FINISH, S_FINISHCLEAR, S_RECREATE, CREATOR, PUSHER, SEQUENCES, STREAMSORT, RANGESORT, SQUAT, NOPS };
const char* opn[] = { "sorter.push", "sorter.sort", "sorter.sort_reuse", "sorter.rewind", "sorter read", "sorter.clear", "sorter.finish", "sorter.finish_clear", "sorter recreate", "runs_creator+merger", "runs_creator<use_push>+merger", "runs_creator<from_sorted_sequences>+merger", "stream::sort", "sort(range)", "other user's blocks" };
struct Base { virtual ~Base() { } virtual void go(const sim::Case&) = 0; };

template <class T, unsigned BS, class A, bool Desc>
struct Run : Base
{
    typedef stxxl::typed_block<BS, T> block;
    struct Cmp
    {
        bool operator () (const T& a, const T& b) const { return Desc ? b.v >> 20 < a.v >> 20 : a.v >> 20 < b.v >> 20; }
        T min_value() const { return T(Desc ? ~0ull : 0); }
        T max_value() const { return T(Desc ? 0 : ~0ull); }
    };
    struct Input
    {
        typedef T value_type; const std::vector<u64>* s; size_t i; T cur;
        explicit Input(const std::vector<u64>& v) : s(&v), i(0) { if (!v.empty()) cur = T(v[0]); }
        bool empty() const { return i == s->size(); }
        const T& operator * () const { return cur; }
        const T* operator -> () const { return &cur; }
        Input& operator ++ () { SIM_CHECK(i < s->size(), "read-past-end", "the input stream is advanced beyond its end"); ++i; if (i < s->size()) cur = T((*s)[i]); return *this; }
    };
    typedef stxxl::sorter<T, Cmp, BS, A> sorter;
    struct S { sorter* s; std::vector<u64> all, left; int state; size_t run; u64 last; }; // state 0 input, 1 output, 2 finished
    const sim::Case* cs; u64 next; sim::Rng r; size_t maxn; S o[2]; std::vector<stxxl::BID<BS> > sq;
    Run() : r(1) { }
    static size_t epb() { return block::size; }
    size_t creator_mem(long x) { return (size_t)(2 + x % 9) * BS * stxxl::sort_memory_usage_factor() + (x % 5 ? 0 : (size_t)x % BS); }
    size_t merger_mem(long x) { return (cs->get("wide") && x % 4 ? 150 * BS : 0) + (size_t)(4 * cs->get("nd", 1) + 3 + x % (x % 3 ? 3 : 30)) * BS + (x % 5 ? 0 : (size_t)x % BS); }
    u64 val(long style, size_t i)
    {
        u64 k;
        switch (style % 6) {
        case 0: k = r.below(1u << 30); break;
        case 1: k = r.below(5); break;
        case 2: k = 9; break;
        case 3: k = i; break;
        case 4: k = 1000000 - i; break;
        default: k = i % 7 * 1000 + i / 100; break;
        }
        return ((k + 3) << 20) | (next++ & 0xfffff);
    }
    void values(std::vector<u64>& v, size_t n, long style) { sim::NoPreempt np; for (size_t i = 0; i < n; ++i) v.push_back(val(style, i)); }
    size_t length(const sim::Op& op, size_t crmem) // around the sizes at which something changes
    {
        size_t run = crmem / BS / stxxl::sort_memory_usage_factor() / 2 * epb(), n;
        switch (op.a[1] % 6) {
        case 0: n = (size_t)op.a[0] % 4; break;
        case 1: n = epb() * ((size_t)op.a[0] % 5) + (size_t)op.a[2] % 3 - 1; break;
        case 2: n = run * (1 + (size_t)op.a[0] % 4) + (size_t)op.a[2] % 3 - 1; break;
        case 3: n = (size_t)op.a[0] % (run * 3); break;
        default: n = (size_t)op.a[0] % maxn; break;
        }
        return n > maxn ? n % maxn : n;
    }
    static bool less_(u64 a, u64 b) { return Desc ? b >> 20 < a >> 20 : a >> 20 < b >> 20; }
    // streams have to deliver exactly the elements of the vector in order
    template <class St> void drain(St& st, std::vector<u64> want, const char* how, bool sized, size_t stop = ~(size_t)0)
    {
        std::vector<u64> got; size_t n = want.size();
        u64 prev = 0;
        while (!st.empty() && got.size() < stop) {
            const T& e = *st;
            { sim::NoPreempt np;
                SIM_CHECK(e.ok(), "torn-element", "%s: element %zu of %zu has a damaged body", how, got.size(), n);
                SIM_CHECK(st->v == e.v, "wrong-element", "%s: -> and * differ", how);
                SIM_CHECK(got.empty() || !less_(e.v, prev), "not-sorted", "%s: element %zu of %zu is less than its predecessor", how, got.size(), n);
                SIM_CHECK(got.size() < n, "too-many", "%s: more than the %zu elements put in", how, n);
                prev = e.v; got.push_back(e.v); }
            ++st;
        }
        if (stop != ~(size_t)0 && got.size() == stop) return;
        SIM_CHECK(got.size() == n, "too-few", "%s: %zu of %zu elements", how, got.size(), n);
        sim::NoPreempt np;
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        SIM_CHECK(got == want, "not-permutation", "%s: the %zu elements are not those put in", how, n);
        (void)sized;
    }
    void squat(int n)
    {
        if (sq.size() > 60) return;
        std::vector<stxxl::BID<BS> > id((size_t)n);
        stxxl::block_manager::get_instance()->new_blocks(A(), id.begin(), id.end());
        block* b = new block;
        for (int j = 0; j < n; ++j) {
            for (size_t e = 0; e < epb(); ++e) (*b)[e] = T(7000000 + sq.size());
            b->write(id[(size_t)j])->wait(); sim::NoPreempt np; sq.push_back(id[(size_t)j]);
        }
        delete b;
    }
    void size_ok(S& x, const char* how)
    {
        size_t want = x.state == 1 ? x.left.size() : x.all.size();
        SIM_CHECK(x.s->size() == want, "wrong-size", "after %s: size is %llu, expected %zu", how, (u64)x.s->size(), want);
        if (x.state == 1) SIM_CHECK(x.s->empty() == (want == 0), "wrong-size", "after %s: empty() is wrong", how);
    }
    void output(S& x) { sim::NoPreempt np; x.left = x.all; std::sort(x.left.begin(), x.left.end()); x.state = 1; x.last = 0; x.run = 0; }
    void step(const sim::Op& op)
    {
        S& x = o[op.a[3] % 2];
        const char* how = opn[op.code];
        switch (op.code) {
        case S_PUSH: {
            if (x.state != 0) break;
            size_t n = length(op, (size_t)cs->get("scm")); if (x.all.size() + n > maxn) n = 0;
            size_t b = x.all.size(); values(x.all, n, op.a[2]);
            for (size_t i = b; i < x.all.size(); ++i) { x.s->push(T(x.all[i])); if (i % 17 == 3) SIM_CHECK(x.s->size() == i + 1, "wrong-size", "after %s: size is %llu, expected %zu", how, (u64)x.s->size(), i + 1); }
            break;
        }
        case S_SORT: if (op.a[0] % 3) x.s->sort(); else if (op.a[0] % 2) x.s->sort(merger_mem(op.a[1])); else { x.s->set_merger_memory_to_use(merger_mem(op.a[1])); x.s->sort(); } output(x); break;
        case S_REUSE: if (x.state) break; x.s->sort_reuse(); output(x); break;
        case S_REWIND: if (x.state != 1) break; x.s->rewind(); output(x); break;
        case S_READ: {
            if (x.state != 1) break;
            size_t n = op.a[1] % 3 == 0 ? x.left.size() : (size_t)op.a[0] % (x.left.size() + 1);
            while (n--) {
                const T& e = **x.s;
                { sim::NoPreempt np;
                    SIM_CHECK(e.ok() && (*x.s)->v == e.v, "torn-element", "sorter: element has a damaged body");
                    SIM_CHECK(!x.run || !less_(e.v, x.last), "not-sorted", "sorter: element %zu is less than its predecessor", x.run);
                    std::vector<u64>::iterator p = std::lower_bound(x.left.begin(), x.left.end(), e.v);
                    SIM_CHECK(p != x.left.end() && *p == e.v, "not-permutation", "sorter: element %zu (%llx) was not pushed or has been read before", x.run, e.v);
                    x.left.erase(p); x.last = e.v; ++x.run; }
                ++*x.s;
            }
            break;
        }
        case S_CLEAR: if (op.a[0] % 4 && x.state == 0) break; x.s->clear(); { sim::NoPreempt np; x.all.clear(); x.left.clear(); } x.state = 0; squat(1 + (int)(op.a[2] % 6)); if (op.a[2] % 2) stxxl::SETTINGS::native_merge = op.a[2] % 4 == 1; break;
        case S_FINISH: if (x.state == 1) break; x.s->finish(); x.state = 2; break;
        case S_FINISHCLEAR: if (x.state != 1) break; x.s->finish_clear(); x.s->clear(); { sim::NoPreempt np; x.all.clear(); x.left.clear(); } x.state = 0; break;
        case S_RECREATE: delete x.s; make(x); squat(1 + (int)(op.a[2] % 6)); break;
        case CREATOR: {
            std::vector<u64> v; size_t cm = creator_mem(op.a[3]); values(v, length(op, cm), op.a[2]);
            Input in(v);
            typedef stxxl::stream::runs_creator<Input, Cmp, BS, A> RC;
            std::unique_ptr<RC> rc(new RC(in, Cmp(), cm));
            typename RC::sorted_runs_type runs = rc->result();
            SIM_CHECK(in.empty(), "too-few", "%s: %zu of %zu elements of the input have been read", how, in.i, v.size());
            merge<typename RC::sorted_runs_type>(runs, v, op, how);
            break;
        }
        case PUSHER: {
            std::vector<u64> v; size_t cm = creator_mem(op.a[3]);
            typedef stxxl::stream::runs_creator<stxxl::stream::use_push<T>, Cmp, BS, A> RC;
            std::unique_ptr<RC> rc(new RC(Cmp(), cm));
            for (int k = 0; k <= op.a[4] % 3; ++k) {
                if (k) { if (op.a[4] % 2) rc->result(); rc->clear(); squat(1 + (int)(op.a[2] % 3)); }
                { sim::NoPreempt np; v.clear(); }
                values(v, length(op, cm), op.a[2]);
                for (size_t i = 0; i < v.size(); ++i) { rc->push(T(v[i])); if (i % 19 == 5) SIM_CHECK(rc->size() == i + 1, "wrong-size", "%s: size is %llu after %zu elements", how, (u64)rc->size(), i + 1); }
            }
            if (op.a[4] % 7 == 0) { rc.reset(); squat(2 + (int)(op.a[2] % 4)); break; } // dropped without asking for the result
            typename RC::sorted_runs_type runs = rc->result();
            if (op.a[4] % 5 == 0) rc.reset();
            merge<typename RC::sorted_runs_type>(runs, v, op, how);
            break;
        }
        case SEQUENCES: {
            std::vector<u64> v; size_t cm = creator_mem(op.a[3]);
            typedef stxxl::stream::runs_creator<stxxl::stream::from_sorted_sequences<T>, Cmp, BS, A> RC;
            std::unique_ptr<RC> rc(new RC(Cmp(), cm));
            bool wide = cs->get("wide") != 0; // many short runs, merged at once by a wide loser tree
            size_t n = wide ? (20 + (size_t)op.a[0] % 125) * 3 : length(op, cm);
            while (v.size() < n) {
                size_t k = std::min(n - v.size(), 1 + (size_t)r.below(wide ? (r.chance(1, 20) ? epb() + 2 : 5) : op.a[4] % 2 ? epb() * 4 : epb() + 2));
                std::vector<u64> run; values(run, k, op.a[2]);
                { sim::NoPreempt np; std::sort(run.begin(), run.end(), less_); v.insert(v.end(), run.begin(), run.end()); }
                for (size_t i = 0; i < k; ++i) rc->push(T(run[i]));
                if (v.size() < n || r.chance(1, 2)) rc->finish();
                if (r.chance(1, 9)) rc->finish();
            }
            if (op.a[4] % 7 == 0) { rc.reset(); squat(2); break; }
            typename RC::sorted_runs_type runs = rc->result();
            if (op.a[4] % 5 == 0) rc.reset();
            merge<typename RC::sorted_runs_type>(runs, v, op, how);
            break;
        }
        case STREAMSORT: {
            std::vector<u64> v; size_t cm = creator_mem(op.a[3]); values(v, length(op, cm), op.a[2]);
            Input in(v);
            typedef stxxl::stream::sort<Input, Cmp, BS, A> St;
            std::unique_ptr<St> st(op.a[4] % 2 || merger_mem(op.a[4]) < cm ? new St(in, Cmp(), cm, merger_mem(op.a[4])) : new St(in, Cmp(), std::max(cm, merger_mem(0))));
            drain(*st, v, how, false, op.a[4] % 4 == 0 ? (size_t)op.a[0] % (v.size() + 1) : ~(size_t)0);
            break;
        }
        case RANGESORT: {
            typedef typename stxxl::VECTOR_GENERATOR<T, 1, 2, BS, A>::result V;
            std::vector<u64> v; size_t cm = merger_mem(op.a[3]) + creator_mem(op.a[3]); values(v, length(op, cm) % (epb() * 40), op.a[2]);
            std::unique_ptr<V> ev(new V(v.size()));
            for (size_t i = 0; i < v.size(); ++i) (*ev)[i] = T(v[i]);
            size_t a = (size_t)op.a[0] % (v.size() + 1), b = a + (size_t)op.a[4] % (v.size() - a + 1);
            if (op.a[1] % 3 == 0) { a = 0; b = v.size(); }
            if (a == b) break;
            stxxl::sort<BS>(ev->begin() + (long)a, ev->begin() + (long)b, Cmp(), cm, A());
            std::vector<u64> g(v.size());
            for (size_t i = 0; i < v.size(); ++i) { const T& e = (*ev)[i]; SIM_CHECK(e.ok(), "torn-element", "%s: element %zu has a damaged body", how, i); g[i] = e.v; }
            sim::NoPreempt np;
            for (size_t i = 0; i < v.size(); ++i) {
                if (i < a || i >= b) SIM_CHECK(g[i] == v[i], "outside-changed", "%s [%zu,%zu): element %zu outside of the range changed", how, a, b, i);
                else SIM_CHECK(i == a || !less_(g[i], g[i - 1]), "not-sorted", "%s: element %zu is less than its predecessor", how, i);
            }
            std::sort(g.begin(), g.end()); std::sort(v.begin(), v.end());
            SIM_CHECK(g == v, "not-permutation", "%s: not a permutation", how);
            break;
        }
        case SQUAT: squat(1 + (int)(op.a[0] % 6)); break;
        }
        if (op.code <= S_RECREATE) size_ok(x, how);
    }
    template <class Runs> void merge(Runs& runs, const std::vector<u64>& v, const sim::Op& op, const char* how)
    {
        typedef stxxl::stream::runs_merger<Runs, Cmp, A> RM;
        SIM_CHECK(runs->elements == v.size(), "wrong-size", "%s: the runs have %llu elements, expected %zu", how, (u64)runs->elements, v.size());
        if (op.a[4] % 4 == 1) SIM_CHECK(stxxl::stream::check_sorted_runs(runs, Cmp()), "not-sorted", "%s: check_sorted_runs failed", how);
        std::unique_ptr<RM> rm(new RM(runs, Cmp(), merger_mem(op.a[4])));
        SIM_CHECK(rm->size() == v.size(), "wrong-size", "%s: size of the merger is %llu, expected %zu", how, (u64)rm->size(), v.size());
        if (op.a[4] % 3 == 1) { drain(*rm, v, how, true, (size_t)op.a[0] % (v.size() + 1)); rm.reset(new RM(runs, Cmp(), merger_mem(op.a[3]))); }
        drain(*rm, v, how, true);
        if (op.a[4] % 3 == 2) { rm.reset(); rm.reset(new RM(runs, Cmp(), merger_mem(op.a[3]))); drain(*rm, v, how, true); }
        sim::probe(v.size() <= epb() ? "small input" : runs->runs.size() < 3 ? "few runs" : runs->runs.size() <= 32 ? "many runs" : "more than 32 runs");
    }
    void make(S& x) { x.s = cs->get("scm2") ? new sorter(Cmp(), (size_t)cs->get("scm"), merger_mem(cs->get("smm"))) : new sorter(Cmp(), std::max((size_t)cs->get("scm"), merger_mem(0))); sim::NoPreempt np; x.all.clear(); x.left.clear(); x.state = 0; }
    void go(const sim::Case& c)
    {
        cs = &c; next = 1; r = sim::Rng((u64)c.get("rs")); maxn = (size_t)c.get("maxblocks") * epb() + 1;
        stxxl::SETTINGS::native_merge = c.get("native");
        sim::Case& mc = const_cast<sim::Case&>(c); (void)mc;
        for (int i = 0; i < 2; ++i) make(o[i]);
        for (size_t k = 0; k < c.ops.size(); ++k) step(c.ops[k]);
        for (int i = 0; i < 2; ++i) { if (o[i].state == 1 || c.get("rs") % 2) { if (o[i].state != 1) { o[i].s->sort(); output(o[i]); } step(sim::Op(S_READ, 0, 0, 0, i)); } delete o[i].s; }
        block* b = new block;
        for (size_t i = 0; i < sq.size(); ++i) {
            b->read(sq[i])->wait();
            { sim::NoPreempt np; for (size_t e = 0; e < epb(); ++e) SIM_CHECK((*b)[e].v == 7000000 + i && (*b)[e].ok(), "foreign-block", "a block of another user has been overwritten"); }
            stxxl::block_manager::get_instance()->delete_block(sq[i]);
        }
        delete b;
    }
};
enum { NCFG = 5 };
Base* make_run(long k)
{
    switch (k) {
    case 0: return new Run<Elem<512>, 4096, stxxl::striping, false>();
    case 1: return new Run<Elem<1024>, 4096, stxxl::RC, true>();
    case 2: return new Run<Elem<520>, 4096, stxxl::FR, false>();
    case 3: return new Run<Elem<1024>, 8192, stxxl::SR, true>();
    default: return new Run<Elem<256>, 4096, stxxl::RC, false>();
    }
}
struct H : ContHarness
{
    const char* name() { return "ssort"; }
    std::string describe(const sim::Op& o) { char s[120]; snprintf(s, sizeof s, "%s (%ld %ld %ld %ld %ld)", o.code < NOPS ? opn[o.code] : "?", o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]); return s; }
    void gen(sim::Rng& r, sim::Case& c, bool thorough)
    {
        c.set("cfg", r.range(0, NCFG - 1)); c.set("maxblocks", r.pick({ 4L, 12L, 30L, thorough ? 100L : 50L }));
        c.set("rs", (long)r.below(1u << 30)); c.set("native", r.range(0, 1)); c.set("scm2", r.range(0, 1)); c.set("smm", (long)r.below(1000));
        long bs = c.get("cfg") == 3 ? 8192 : 4096;
        c.set("scm", (2 + (long)r.below(9)) * bs * (long)stxxl::sort_memory_usage_factor());
        gen_par(r, c);
        c.set("wide", r.chance(1, 12));
        long n = c.get("wide") ? r.range(1, 2) : r.range(1, thorough ? 16 : 9); bool only = !c.get("wide") && r.chance(1, 2);
        for (long i = 0; i < n; ++i) {
            int op = (int)r.range(only ? 0 : 0, only ? (int)S_RECREATE : NOPS - 1);
            if (only && r.chance(1, 3)) op = r.pick({ (int)S_PUSH, (int)S_PUSH, (int)S_READ, (int)S_SORT });
            if (c.get("wide")) op = SEQUENCES;
            c.ops.push_back(sim::Op(op, (long)r.below(100000), (long)r.below(1000), (long)r.below(1000), (long)r.below(1000), (long)r.below(1000)));
        }
    }
    void body(const sim::Case& c) { setup_par(c); std::unique_ptr<Base> r(make_run(c.get("cfg"))); r->go(c); }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
