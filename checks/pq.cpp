// priority_queue (sequence heap) against a multiset model: several arities and levels, equal keys with distinct payloads,
// own and shared pools, overflow of the last level, parallel (simulated OpenMP) and loser-tree mergers.
#define STXXL_DEFAULT_BLOCK_SIZE(type) (4096)
#include "cont.h"
#include "par.h"
#include <stxxl/priority_queue>
#include <set>
#include <memory>
using namespace chk;
namespace {
enum { PUSH, POP, MIX, DRAIN, RECREATE, SQUAT, POOLSIZE, MONO, NOPS };
const char* opn[] = { "push", "pop", "push and pop mixed", "drain", "destroy+recreate", "another user allocates and writes blocks", "resize pool", "pop, push back later (monotone)" };
enum { BS = 4096 };
const u64 MAXK = 1ull << 40;
template <class T, bool Max> struct Cmp // max: largest key on top; payload (low 20 bits) is not part of the order
{
    bool operator () (const T& a, const T& b) const { return Max ? (a.v >> 20) < (b.v >> 20) : (a.v >> 20) > (b.v >> 20); }
    T min_value() const { return T(Max ? 0 : MAXK << 20); }
};
typedef std::map<u64, std::set<u64> > Model; // key -> payloads

struct Base { virtual ~Base() { } virtual void go(const sim::Case& c) = 0; };

template <class T, bool Max, unsigned DB, unsigned N, unsigned IK, unsigned IL, unsigned EK, unsigned EL, class AS>
struct Run : Base
{
    typedef stxxl::priority_queue<stxxl::priority_queue_config<T, Cmp<T, Max>, DB, N, IK, IL, BS, EK, EL, AS> > PQ;
    typedef typename PQ::block_type block; typedef typename PQ::pool_type pool_t;
    PQ* q[2]; Model m[2]; u64 cnt[2], next; pool_t* pool; const sim::Case* cs; int nobj; bool shared; sim::Rng r;
    std::vector<stxxl::BID<BS> > sq; long w, p; size_t maxn, high; u64 last[2];

    PQ* make() { return shared ? new PQ(*pool) : new PQ((stxxl::unsigned_type)p * BS, (stxxl::unsigned_type)w * BS); }
    void size_ok(int i, const char* how)
    {
        SIM_CHECK(q[i]->size() == cnt[i] && q[i]->empty() == (cnt[i] == 0), "wrong-size", "%s: size is %llu, expected %llu", how, (u64)q[i]->size(), cnt[i]);
    }
    u64 best(int i) { return Max ? m[i].rbegin()->first : m[i].begin()->first; }
    void push(int i, u64 key)
    {
        if (cnt[i] >= maxn) return;
        if (key < 1) key = 1; if (key >= MAXK) key = MAXK - 1;
        u64 pay = next++ & 0xFFFFF;
        q[i]->push(T(key << 20 | pay));
        sim::NoPreempt np;
        m[i][key].insert(pay); ++cnt[i]; if (cnt[i] > high) high = cnt[i];
    }
    u64 pop(int i)
    {
        if (!cnt[i]) return 0;
        u64 v, k;
        { const T& t = q[i]->top();
          sim::NoPreempt np;
          v = t.v; k = v >> 20;
          SIM_CHECK(t.ok(), "torn-element", "the top element %llu has a damaged body", k);
          SIM_CHECK(k == best(i), "wrong-top", "top() is %llu with %llu elements, expected %llu", k, cnt[i], best(i));
          auto it = m[i].find(k);
          SIM_CHECK(it->second.erase(v & 0xFFFFF) == 1, "wrong-top", "top() of key %llu delivers payload %llu, which is not in the queue (delivered twice or never pushed)", k, v & 0xFFFFF);
          if (it->second.empty()) m[i].erase(it); }
        q[i]->pop(); --cnt[i];
        return k;
    }
    u64 key(int i, long style)
    {
        switch (style % 6) {
        case 0: return 1 + r.below(1000000);
        case 1: return 1 + r.below(7);
        case 2: return 5;
        case 3: return 10000 + (last[i] = last[i] + 1);
        case 4: return 900000 - (last[i] = last[i] + 1);
        default: return cnt[i] ? best(i) + (Max ? 0 - r.below(50) : r.below(50)) : 500;
        }
    }
    void step(const sim::Op& op)
    {
        int i = (int)(op.a[0] % nobj);
        size_t k = (size_t)op.a[1] % (op.a[3] % 4 == 0 ? N * IK * 5 : N * 3);
        switch (op.code) {
        case PUSH: while (k--) push(i, key(i, op.a[2])); break;
        case POP: while (k--) pop(i); break;
        case MIX: while (k--) if ((long)r.below(10) < 1 + op.a[3] % 9) push(i, key(i, op.a[2])); else pop(i); break;
        case DRAIN: { size_t to = op.a[3] % 2 ? 0 : k; while (cnt[i] > to) pop(i); break; }
        case MONO: while (k--) { u64 b = pop(i); if (b) push(i, Max ? (b > 60 ? b - r.below(50) : b) : b + r.below(50)); } break;
        case RECREATE: delete q[i]; q[i] = NULL; q[i] = make(); { sim::NoPreempt np; m[i].clear(); cnt[i] = 0; } break;
        case SQUAT: {
            if (sq.size() > 40) break;
            stxxl::BID<BS> id[6]; int n = 1 + (int)(op.a[2] % 6);
            stxxl::block_manager::get_instance()->new_blocks(stxxl::striping(), id, id + n);
            block* b = new block;
            for (int j = 0; j < n; ++j) {
                for (int e = 0; e < (int)block::size; ++e) (*b)[e] = T(7000000 + sq.size());
                b->write(id[j])->wait(); sim::NoPreempt np; sq.push_back(id[j]);
            }
            delete b; break;
        }
        case POOLSIZE: if (pool) { if (op.a[1] % 2) pool->resize_prefetch((stxxl::unsigned_type)(pool->size_prefetch() - pool->free_size_prefetch() + (stxxl::unsigned_type)op.a[2] % 5)); else pool->resize_write(pool->size_write() + (stxxl::unsigned_type)op.a[2] % 2); } break;
        }
        size_ok(i, opn[op.code]);
        if (cnt[i]) { const T& t = q[i]->top(); sim::NoPreempt np; SIM_CHECK((t.v >> 20) == best(i), "wrong-top", "after %s: top() is %llu, expected %llu", opn[op.code], (u64)(t.v >> 20), best(i)); }
    }
    void go(const sim::Case& c)
    {
        cs = &c; nobj = (int)c.get("nobj"); next = 1; maxn = (size_t)c.get("maxn"); w = c.get("w"); p = c.get("p"); shared = c.get("shared"); pool = NULL; high = 0;
        r = sim::Rng((u64)c.get("rs"));
        if (shared) pool = new pool_t((stxxl::unsigned_type)p, (stxxl::unsigned_type)w);
        for (int i = 0; i < nobj; ++i) { last[i] = cnt[i] = 0; q[i] = NULL; q[i] = make(); size_ok(i, "new"); }
        for (size_t k = 0; k < c.ops.size(); ++k) step(c.ops[k]);
        sim::probe(high > N * IK * EK ? "overflow or last level reached" : high > N * IK ? "external" : "internal only");
        for (int i = 0; i < nobj; ++i) {
            if (c.get("drain")) while (cnt[i]) pop(i);
            size_ok(i, "end"); delete q[i];
        }
        delete pool;
        block* b = new block;
        for (size_t i = 0; i < sq.size(); ++i) {
            b->read(sq[i])->wait();
            { sim::NoPreempt np; for (int e = 0; e < (int)block::size; ++e) SIM_CHECK((*b)[e].v == 7000000 + i && (*b)[e].ok(), "foreign-block", "a block of another user has been overwritten"); }
            stxxl::block_manager::get_instance()->delete_block(sq[i]);
        }
        delete b;
    }
    Run() : r(1) { }
};
enum { NCFG = 8 };
Base* make_run(long k) // IntKMAX must be a power of two
{
    switch (k) {
    case 0: return new Run<Elem<64>, true, 4, 16, 8, 1, 4, 1, stxxl::striping>();
    case 1: return new Run<Elem<128>, false, 4, 12, 8, 1, 4, 2, stxxl::FR>();
    case 2: return new Run<Elem<64>, true, 8, 12, 8, 2, 2, 2, stxxl::RC>();
    case 3: return new Run<Elem<256>, false, 8, 24, 8, 1, 5, 1, stxxl::SR>();
    case 4: return new Run<Elem<512>, true, 3, 8, 8, 1, 6, 2, stxxl::RC>();
    case 5: return new Run<Elem<256>, false, 16, 16, 4, 1, 7, 2, stxxl::striping>();
    case 6: return new Run<Elem<128>, true, 4, 8, 4, 2, 2, 2, stxxl::RC>();
    default: return new Run<Elem<256>, false, 4, 12, 2, 2, 3, 2, stxxl::RC>();
    }
}
struct H : ContHarness
{
    const char* name() { return "pq"; }
    std::string describe(const sim::Op& o) { char s[120]; snprintf(s, sizeof s, "queue %ld: %s (%ld %ld %ld)", o.a[0], o.code < NOPS ? opn[o.code] : "?", o.a[1], o.a[2], o.a[3]); return s; }
    void gen(sim::Rng& r, sim::Case& c, bool thorough)
    {
        c.set("cfg", r.range(0, NCFG - 1)); c.set("nobj", r.pick({ 1L, 1L, 2L })); c.set("maxn", r.pick({ 200L, 800L, 2500L, thorough ? 9000L : 2500L }));
        c.set("w", r.range(1, 5)); c.set("p", r.range(0, 6)); c.set("shared", r.range(0, 1)); c.set("drain", r.chance(3, 4)); c.set("rs", (long)r.below(1u << 30));
        gen_par(r, c);
        long n = r.range(2, thorough ? 24 : 12), style = r.range(0, 5);
        for (long i = 0; i < n; ++i) {
            int op = (int)r.range(0, NOPS - 1);
            if (r.chance(1, 2)) op = r.pick({ (int)PUSH, (int)PUSH, (int)MIX, (int)MONO });
            if (op == RECREATE && r.chance(1, 2)) op = PUSH;
            if (r.chance(1, 4)) style = r.range(0, 5);
            c.ops.push_back(sim::Op(op, r.range(0, 1), (long)r.below(100000), op == SQUAT || op == POOLSIZE ? (long)r.below(1000) : style, (long)r.below(1000)));
        }
    }
    void body(const sim::Case& c) { setup_par(c); std::unique_ptr<Base> r(make_run(c.get("cfg"))); r->go(c); }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
