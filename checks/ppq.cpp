// parallel_priority_queue against a multiset model: single and bulk operations, pushes from several (simulated OpenMP)
// threads, limit sessions, merging of internal and external arrays at small levels, little memory.
#define STXXL_DEFAULT_BLOCK_SIZE(type) (4096)
#include "cont.h"
#include "par.h"
#ifdef VERIF_DBG
#define protected public
#include <stxxl/bits/containers/parallel_priority_queue.h>
#undef protected
#else
#include <stxxl/bits/containers/parallel_priority_queue.h>
#endif
#include <set>
#include <memory>
using namespace chk;
#ifdef VERIF_DBG
#define DBG(...) sim::note(__VA_ARGS__)
#else
#define DBG(...)
#endif
namespace {
enum { PUSH, POP, MIX, DRAIN, BULK, BULKPAR, BPOP, BPOPLIM, SESSION, MERGE, RECREATE, SQUAT, NOPS };
const char* opn[] = { "push", "pop", "push and pop mixed", "drain", "bulk push", "bulk push by several threads", "bulk pop", "bulk pop up to a limit", "limit session", "merge external arrays", "destroy+recreate", "another user allocates and writes blocks" };
enum { BS = 4096 };
const u64 MAXK = 1ull << 40;
template <class T, bool Max> struct Cmp // max: largest key on top; payload (low 20 bits) is not part of the order
{
    bool operator () (const T& a, const T& b) const { return Max ? (a.v >> 20) < (b.v >> 20) : (a.v >> 20) > (b.v >> 20); }
};
typedef std::map<u64, std::set<u64> > Model; // key -> payloads

struct Base { virtual ~Base() { } virtual void go(const sim::Case& c) = 0; };

template <class T, bool Max, class AS>
struct Run : Base
{
#ifdef VERIF_DBG
#define DBGEA() (q->dbgea(), q->dbginv())
#else
#define DBGEA()
#endif
    struct PQ : stxxl::parallel_priority_queue<T, Cmp<T, Max>, AS, BS> { typedef stxxl::parallel_priority_queue<T, Cmp<T, Max>, AS, BS> B; PQ(Cmp<T,Max> a, u64 b, float c, stxxl::unsigned_type d, stxxl::unsigned_type e, u64 f, u64 g) : B(a,b,c,d,e,f,g) { }
      void dbgea() { for (size_t i = 0; i < this->m_external_arrays.size(); ++i) { auto& e = this->m_external_arrays[i]; sim::note("EA %zu size %zu cap %zu level %zu used %zu hinted %zu unhinted %d index %zu", i, e.size(), e.capacity(), (size_t)e.level(), e.num_used_blocks(), e.num_hinted_blocks(), (int)e.has_unhinted_em_data(), (size_t)e.get_current_block_index()); } sim::note("EA pool free %zu read %zu hinted %zu used %zu memleft %ld", (size_t)this->m_pool.free_size_prefetch(), (size_t)this->m_num_read_blocks, (size_t)this->m_num_hinted_blocks, (size_t)this->m_num_used_read_blocks, (long)this->m_mem_left); }
      void dbginv() { u64 a = 0, b = 0; for (auto i = this->m_internal_arrays.begin(); i != this->m_internal_arrays.end(); ++i) a += i->size(); for (auto i = this->m_external_arrays.begin(); i != this->m_external_arrays.end(); ++i) b += i->size(); if (a != this->m_internal_size || b != this->m_external_size) sim::note("EA INV ia %llu/%llu ea %llu/%llu", a, (u64)this->m_internal_size, b, (u64)this->m_external_size); u64 h = 0; for (int p = 0; p < this->m_num_insertion_heaps; ++p) { auto& x = this->m_proc[p]->insertion_heap; h += x.size(); if (!std::is_heap(x.begin(), x.end(), this->m_compare)) sim::note("EA INV heap %d is none", p); } if (h != this->m_heaps_size) sim::note("EA INV heaps %llu/%llu", h, (u64)this->m_heaps_size); }
      void dbgeb() { for (size_t i = 0; i < this->m_extract_buffer.size(); ++i) sim::note("EA EB %zu: %llu/%llu", i, this->m_extract_buffer[i].v >> 20, this->m_extract_buffer[i].v & 0xfffff); for (size_t e = 0; e < this->m_external_arrays.size(); ++e) for (size_t i = 0; i < this->m_external_arrays[e].m_minima.size(); ++i) sim::note("EA %zu min %zu: %llu/%llu", e, i, this->m_external_arrays[e].m_minima[i].v >> 20, this->m_external_arrays[e].m_minima[i].v & 0xfffff); }
      u64 dbg(int i) { return i == 0 ? this->m_heaps_size : i == 1 ? this->m_internal_size : i == 2 ? this->m_external_size : this->m_extract_buffer_size; } };
    typedef stxxl::typed_block<BS, T> block;
    PQ* q; Model m; u64 cnt, next, high; const sim::Case* cs; sim::Rng r; u64 last;
    std::vector<stxxl::BID<BS> > sq; long nh, hcap, ebl; size_t maxn;

    PQ* make()
    {
        nh = cs->get("nh"); hcap = cs->get("hcap"); ebl = cs->get("ebl");
        long hr = hcap * (long)sizeof(T), wb = std::max(std::max(cs->get("wb"), 3 * nh), cs->get("nd", 1));
        long total = 3 * nh * hr + wb * BS + cs->get("mem") * nh * hr + cs->get("memb") * BS;
        PQ* p = new PQ(Cmp<T, Max>(), (u64)total, (float)cs->get("rb") / 10.0f, (stxxl::unsigned_type)cs->get("wb"), (stxxl::unsigned_type)nh, (u64)hr, (u64)(ebl * (long)sizeof(T)));
        p->c_max_internal_level_size = (stxxl::unsigned_type)cs->get("il"); p->c_max_external_level_size = (stxxl::unsigned_type)cs->get("el");
        return p;
    }
    void size_ok(const char* how)
    {
        SIM_CHECK(q->size() == cnt && q->empty() == (cnt == 0), "wrong-size", "%s: size is %llu, expected %llu", how, (u64)q->size(), cnt);
    }
    bool better(u64 a, u64 b) { return Max ? a > b : a < b; }
    u64 best() { return Max ? m.rbegin()->first : m.begin()->first; }
    u64 fresh(u64 key)
    {
        sim::NoPreempt np;
        if (key < 1) key = 1; if (key >= MAXK) key = MAXK - 1;
        u64 pay = next++ & 0xFFFFF;
        m[key].insert(pay); ++cnt; if (cnt > high) high = cnt;
        return key << 20 | pay;
    }
    void push(u64 key) { if (cnt < maxn) { u64 v = fresh(key); q->push(T(v), (unsigned)r.below((u64)nh)); } }
    // x is delivered as the best element
    void take(const T& t, const char* how)
    {
        sim::NoPreempt np;
        u64 v = t.v, k = v >> 20;
        DBG( "TAKE %s %llu/%llu heaps=%llu ia=%llu ea=%llu eb=%llu", how, k, v & 0xFFFFF, q->dbg(0), q->dbg(1), q->dbg(2), q->dbg(3));
        DBGEA();
        SIM_CHECK(t.ok(), "torn-element", "%s: element %llu has a damaged body", how, k);
        SIM_CHECK(cnt, "extra-element", "%s: an element of key %llu is delivered, but the queue is empty", how, k);
#ifdef VERIF_DBG
        if (k != best()) q->dbgeb();
#endif
        SIM_CHECK(k == best(), "wrong-top", "%s delivers key %llu with %llu elements in the queue, expected %llu", how, k, cnt, best());
        auto it = m.find(k);
        SIM_CHECK(it->second.erase(v & 0xFFFFF) == 1, "wrong-top", "%s: key %llu with payload %llu is not in the queue (delivered twice or never pushed)", how, k, v & 0xFFFFF);
        if (it->second.empty()) m.erase(it);
        --cnt;
    }
    void pop()
    {
        if (!cnt) return;
        take(q->top(), "top()");
        q->pop();
    }
    u64 key(long style)
    {
        switch (style % 6) {
        case 0: return 1 + r.below(1000000);
        case 1: return 1 + r.below(7);
        case 2: return 5;
        case 3: return 10000 + (last = last + 1);
        case 4: return 900000 - (last = last + 1);
        default: return cnt ? best() + (Max ? 0 - r.below(50) : r.below(50)) : 500;
        }
    }
    u64 rank(size_t k) // the key of the k-th best element
    {
        if (Max) for (auto it = m.rbegin(); it != m.rend(); ++it) { if (k < it->second.size()) return it->first; k -= it->second.size(); }
        else for (auto it = m.begin(); it != m.end(); ++it) { if (k < it->second.size()) return it->first; k -= it->second.size(); }
        return Max ? 1 : MAXK - 1;
    }
    // pushing by the team: which element goes to which thread is up to the runtime
    void par_push(const std::vector<u64>& v, bool limit, bool implicit)
    {
        int T_ = (int)std::min<long>(nh, cs->get("p.threads", 1));
#pragma omp parallel num_threads(T_)
        {
            int me = omp_get_thread_num(), n = omp_get_num_threads();
            for (size_t i = (size_t)me; i < v.size(); i += (size_t)n)
                if (limit) q->limit_push(T(v[i]), (stxxl::unsigned_type)me);
                else if (implicit) q->bulk_push(T(v[i]));
                else q->bulk_push(T(v[i]), (stxxl::unsigned_type)me);
        }
    }
    void step(const sim::Op& op)
    {
        DBG("OP %s cnt %llu heaps=%llu ia=%llu ea=%llu eb=%llu", opn[op.code], cnt, q->dbg(0), q->dbg(1), q->dbg(2), q->dbg(3));
        size_t k = (size_t)op.a[1] % (size_t)(op.a[3] % 3 == 0 ? nh * hcap * 4 : nh * hcap / 2 + 2);
        long st = op.a[2];
        switch (op.code) {
        case PUSH: while (k--) { push(key(st)); DBGEA(); } break;
        case POP: while (k--) pop(); break;
        case MIX: while (k--) if ((long)r.below(10) < 1 + op.a[3] % 9) push(key(st)); else pop(); break;
        case DRAIN: { size_t to = op.a[3] % 2 ? 0 : k; while (cnt > to) pop(); break; }
        case BULK: case BULKPAR: {
            if (cnt + k > maxn) k = cnt < maxn ? maxn - cnt : 0;
            q->bulk_push_begin(k);
            if (op.code == BULK) while (k--) { u64 v = fresh(key(st)); q->bulk_push(T(v), r.below((u64)nh)); }
            else { std::vector<u64> v; while (k--) v.push_back(fresh(key(st))); par_push(v, false, op.a[3] % 5 == 0); }
            q->bulk_push_end();
            break;
        }
        case BPOP: {
            std::vector<T> out((size_t)(op.a[3] % 3), T(0));
            size_t n = k % (size_t)ebl;
            u64 before = cnt;
            q->bulk_pop(out, n);
            SIM_CHECK(out.size() <= n && out.size() <= before, "bulk-size", "bulk_pop(%zu) delivers %zu elements of %llu", n, out.size(), before);
            SIM_CHECK(out.size() || !n || !before, "bulk-size", "bulk_pop(%zu) delivers nothing, %llu elements are in the queue", n, before);
            for (size_t i = 0; i < out.size(); ++i) take(out[i], "bulk_pop");
            break;
        }
        case BPOPLIM: {
            std::vector<T> out((size_t)(op.a[3] % 3), T(0));
            u64 l = limit(op, k); size_t mx = op.a[3] % 2 ? std::numeric_limits<size_t>::max() : 1 + (size_t)op.a[1] % 50;
            bool any = cnt && better(best(), l);
            bool full = q->bulk_pop_limit(out, T(l << 20), mx);
            SIM_CHECK(out.size() <= mx, "bulk-size", "bulk_pop_limit(%llu, %zu) delivers %zu elements", l, mx, out.size());
            SIM_CHECK(out.size() || !any, "bulk-size", "bulk_pop_limit(%llu, %zu) delivers nothing, but there are elements beyond the limit", l, mx);
            for (size_t i = 0; i < out.size(); ++i) { SIM_CHECK(better(out[i].v >> 20, l), "limit", "bulk_pop_limit(%llu) delivers key %llu", l, (u64)(out[i].v >> 20)); take(out[i], "bulk_pop_limit"); }
            if (full) SIM_CHECK(!cnt || !better(best(), l), "limit", "bulk_pop_limit(%llu) claims to have extracted all elements beyond the limit, key %llu is left", l, best());
            break;
        }
        case SESSION: {
            u64 l = limit(op, k); size_t n = (size_t)op.a[1] % (size_t)(nh * hcap * 3 + 1), pushed = 0, steps = 0;
            DBG("LIMIT %llu n %zu", l, n); q->limit_begin(T(l << 20), n);
            while (steps++ < 2 * n + 20) {
                bool any = cnt && better(best(), l);
                if (r.below(3) || !pushed) {
                    const T& t = q->limit_top(); u64 v = t.v;
                    if (!any) { SIM_CHECK(v == l << 20, "limit", "limit_top() is %llu, but all elements beyond the limit %llu have been extracted", v >> 20, l); if (pushed >= n) break; }
                    else {
                        bool tie = m[best()].size() > 1; // which one is removed after a flush by limit_push() is not specified
                        take(t, "limit_top");
                        if (op.a[3] % 4 == 3 && !tie && pushed < n && cnt < maxn) { u64 x = fresh(beyond(l, st)); ++pushed; DBG( "  PUSH"); q->limit_push(T(x), r.below((u64)nh)); }
                        q->limit_pop();
                    }
                }
                size_t b = 1 + r.below(r.below(4) ? 2 : (u64)hcap);
                std::vector<u64> v;
                while (b-- && pushed < n && cnt < maxn) { v.push_back(fresh(beyond(l, st))); ++pushed; }
                if (v.size() > 2 && op.a[3] % 2) par_push(v, true, false); else for (size_t i = 0; i < v.size(); ++i) q->limit_push(T(v[i]), r.below((u64)nh));
                if ((!v.size() && !any) || (op.a[3] % 5 == 2 && !r.below(8))) break;
            }
            q->limit_end();
            break;
        }
        case MERGE: q->merge_external_arrays(); break;
        case RECREATE: delete q; q = NULL; q = make(); { sim::NoPreempt np; m.clear(); cnt = 0; } break;
        case SQUAT: {
            if (sq.size() > 40) break;
            stxxl::BID<BS> id[6]; int n = 1 + (int)(op.a[2] % 6);
            stxxl::block_manager::get_instance()->new_blocks(stxxl::striping(), id, id + n);
            block* b = new block;
            for (int j = 0; j < n; ++j) {
                for (int e = 0; e < (int)block::size; ++e) (*b)[e] = T(7000000 + sq.size());
                b->write(id[j])->wait(); sim::NoPreempt np; sq.push_back(id[j]);
            }
            delete b; break;
        }
        }
        size_ok(opn[op.code]);
        SIM_CHECK(q->memory_consumption() < 1ull << 40, "memory-accounting", "after %s: memory_consumption() is %llu", opn[op.code], (u64)q->memory_consumption());
        if (cnt && op.a[0] % 2) { const T& t = q->top(); sim::NoPreempt np; SIM_CHECK((t.v >> 20) == best(), "wrong-top", "after %s: top() is %llu, expected %llu", opn[op.code], (u64)(t.v >> 20), best()); }
    }
    u64 limit(const sim::Op& op, size_t k) { return !cnt || op.a[3] % 7 == 0 ? 1 + r.below(1000000) : rank(k % (cnt + 1)); }
    u64 beyond(u64 l, long st) // a key the limit session may push
    {
        u64 x = key(st);
        if (better(x, l)) x = Max ? (l > 1 ? l - r.below(std::min<u64>(l, 100)) : 1) : l + r.below(100);
        return x;
    }
    void go(const sim::Case& c)
    {
        cs = &c; next = 1; maxn = (size_t)c.get("maxn"); high = cnt = last = 0; q = NULL;
        r = sim::Rng((u64)c.get("rs"));
        q = make(); size_ok("new");
        for (size_t k = 0; k < c.ops.size(); ++k) step(c.ops[k]);
        if (c.get("drain")) while (cnt) pop();
        size_ok("end"); delete q;
        block* b = new block;
        for (size_t i = 0; i < sq.size(); ++i) {
            b->read(sq[i])->wait();
            { sim::NoPreempt np; for (int e = 0; e < (int)block::size; ++e) SIM_CHECK((*b)[e].v == 7000000 + i && (*b)[e].ok(), "foreign-block", "a block of another user has been overwritten"); }
            stxxl::block_manager::get_instance()->delete_block(sq[i]);
        }
        delete b;
    }
    Run() : r(1) { }
};
enum { NCFG = 4 };
Base* make_run(long k)
{
    switch (k) {
    case 0: return new Run<Elem<64>, true, stxxl::striping>();
    case 1: return new Run<Elem<128>, false, stxxl::FR>();
    case 2: return new Run<Elem<256>, false, stxxl::SR>();
    default: return new Run<Elem<512>, true, stxxl::RC>();
    }
}
struct H : ContHarness
{
    const char* name() { return "ppq"; }
    std::string describe(const sim::Op& o) { char s[120]; snprintf(s, sizeof s, "%s (%ld %ld %ld)", o.code < NOPS ? opn[o.code] : "?", o.a[1], o.a[2], o.a[3]); return s; }
    void gen(sim::Rng& r, sim::Case& c, bool thorough)
    {
        c.set("cfg", r.range(0, NCFG - 1)); c.set("maxn", r.pick({ 100L, 600L, 1500L, thorough ? 6000L : 1500L }));
        c.set("nh", r.range(1, 4)); c.set("hcap", r.pick({ 2L, 8L, 16L, 40L, 100L })); c.set("ebl", r.pick({ 4L, 16L, 64L, 300L })); c.set("wb", r.range(0, 12)); c.set("rb", r.pick({ 10L, 15L, 20L, 40L }));
        c.set("mem", r.range(2, 8)); c.set("memb", r.range(8, 40)); c.set("il", r.pick({ 2L, 3L, 5L, 64L })); c.set("el", r.pick({ 2L, 2L, 3L, 5L, 64L }));
        c.set("drain", r.chance(3, 4)); c.set("rs", (long)r.below(1u << 30));
        gen_par(r, c);
        long n = r.range(2, thorough ? 24 : 12), style = r.range(0, 5);
        unsigned mask = (unsigned)r.next();
        for (long i = 0; i < n; ++i) {
            int op = (int)r.range(0, NOPS - 1);
            if (!(mask >> op & 1)) op = r.pick({ (int)PUSH, (int)PUSH, (int)MIX, (int)BULK, (int)BULKPAR });
            if ((op == RECREATE || op == MERGE) && r.chance(1, 2)) op = PUSH;
            if (r.chance(1, 4)) style = r.range(0, 5);
            c.ops.push_back(sim::Op(op, r.range(0, 1), (long)r.below(100000), op == SQUAT ? (long)r.below(1000) : style, (long)r.below(1000)));
        }
    }
    void body(const sim::Case& c) { setup_par(c); std::unique_ptr<Base> r(make_run(c.get("cfg"))); r->go(c); }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
