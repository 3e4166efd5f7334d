// Stacks (normal, grow_shrink, grow_shrink2, migrating), queue, sequence with its streams, and deque against std::deque,
// with shared and own block pools.
#define STXXL_DEFAULT_BLOCK_SIZE(type) (32 * 1024)
#include "cont.h"
#include <stxxl/stack>
#include <stxxl/queue>
#include <stxxl/sequence>
#include <stxxl/deque>
#include <stack>
#include <memory>
using namespace chk;
namespace {
enum { PUSH, POP, PUSHF, POPF, MODIFY, SWAP, AGGR, RECREATE, COPY, SCAN, ACCESS, RESIZE, CLEAR, COMPARE, POOLSIZE, OSC, SQUAT, NOPS };
const char* opn[] = { "push (back)", "pop (back)", "push_front", "pop_front", "modify the ends", "swap", "set_prefetch_aggr", "destroy+recreate", "copy from std::stack", "scan", "random access",
                      "resize", "clear", "compare", "resize pool", "push/pop around a block boundary", "another user allocates and writes blocks" };
typedef Elem<512> T;
enum { BS = 4096, EPB = 8 };
typedef stxxl::typed_block<BS, T> block;
typedef stxxl::read_write_pool<block> pool_t;
enum Kind { NORMAL, NORMAL1, GROW, GROW1, GROW2, MIGRATE, QUEUE, SEQ, DEQUE, NKIND };

struct Item { u64 v; bool known; Item(u64 x = 0, bool k = true) : v(x), known(k) { } };
typedef std::deque<Item> Model;

void chkel(const T& e, const Item& it, size_t i, const char* how)
{
    sim::NoPreempt np;
    if (!it.known) return;
    SIM_CHECK(e.v == it.v, "wrong-element", "%s: element %zu is %llu, expected %llu", how, i, e.v, it.v);
    SIM_CHECK(e.ok(), "torn-element", "%s: element %zu has its value but a damaged body", how, i);
}

struct Box // one container under test; only the operations its kind has
{
    virtual ~Box() { }
    virtual void push(const T& x) = 0; virtual void pop() = 0;
    virtual T& back() = 0; virtual const T& cback() = 0;
    virtual u64 size() = 0; virtual bool empty() = 0;
    virtual void push_front(const T&) { } virtual void pop_front() { pop(); }
    virtual T* front() { return NULL; }
    virtual void swap(Box& o) = 0;
    virtual void aggr(long) { }
    virtual bool copy_from(std::stack<T>&) { return false; }
    virtual void scan(const Model&, long, long) { }
    virtual void access(Model&, long, long, u64&) { }
    virtual bool resize(size_t) { return false; }
    virtual bool clear() { return false; }
    virtual void compare(Box&, bool, bool) { }
    virtual bool fifo() { return false; }
    virtual bool two_ended() { return false; }
};
template <class S> struct StackBox : Box
{
    S* s;
    StackBox(S* x) : s(x) { }
    ~StackBox() { delete s; }
    void push(const T& x) { s->push(x); }
    void pop() { s->pop(); }
    T& back() { return s->top(); }
    const T& cback() { return const_cast<const S*>(s)->top(); }
    u64 size() { return s->size(); }
    bool empty() { return s->empty(); }
    void swap(Box& o) { s->swap(*static_cast<StackBox&>(o).s); }
};
template <class S> struct CopyStackBox : StackBox<S>
{
    CopyStackBox() : StackBox<S>(new S) { }
    bool copy_from(std::stack<T>& st) { S* n = new S(st); delete this->s; this->s = n; return true; }
};
struct Grow2Box : StackBox<stxxl::grow_shrink_stack2<stxxl::stack_config_generator<T, 1, BS> > >
{
    typedef stxxl::grow_shrink_stack2<stxxl::stack_config_generator<T, 1, BS> > S;
    Grow2Box(pool_t& p, unsigned a) : StackBox<S>(new S(p, a)) { }
    void aggr(long a) { s->set_prefetch_aggr((stxxl::unsigned_type)a); SIM_CHECK(s->get_prefetch_aggr() == (stxxl::unsigned_type)a, "wrong-aggr", "prefetch aggressiveness not set"); }
};
struct QueueBox : Box
{
    typedef stxxl::queue<T, BS, stxxl::striping> Q;
    Q* q;
    QueueBox(Q* x) : q(x) { }
    ~QueueBox() { delete q; }
    void push(const T& x) { q->push(x); }
    void pop() { q->pop(); }
    T& back() { return q->back(); }
    const T& cback() { return const_cast<const Q*>(q)->back(); }
    T* front() { return &q->front(); }
    u64 size() { return q->size(); }
    bool empty() { return q->empty(); }
    void swap(Box& o) { q->swap(*static_cast<QueueBox&>(o).q); }
    void aggr(long a) { q->set_prefetch_aggr(a); }
    bool fifo() { return true; }
};
struct SeqBox : Box
{
    typedef stxxl::sequence<T, BS, stxxl::RC> Q;
    Q* q;
    SeqBox(Q* x) : q(x) { }
    ~SeqBox() { delete q; }
    void push(const T& x) { q->push_back(x); }
    void pop() { q->pop_back(); }
    void push_front(const T& x) { q->push_front(x); }
    void pop_front() { q->pop_front(); }
    T& back() { return q->back(); }
    const T& cback() { return const_cast<const Q*>(q)->back(); }
    T* front() { return &q->front(); }
    u64 size() { return q->size(); }
    bool empty() { return q->empty(); }
    void swap(Box& o) { q->swap(*static_cast<SeqBox&>(o).q); }
    void aggr(long a) { q->set_prefetch_aggr(a); }
    bool two_ended() { return true; }
    template <class ST> void scan1(ST& st, const Model& m, bool rev, size_t stop)
    {
        for (size_t i = 0; i < m.size() && i < stop; ++i) {
            SIM_CHECK(!st.empty() && st.size() == m.size() - i, "stream-size", "%s stream has %llu elements left at %zu of %zu", rev ? "reverse" : "forward", (u64)st.size(), i, m.size());
            size_t k = rev ? m.size() - 1 - i : i;
            chkel(*st, m[k], k, rev ? "reverse stream" : "stream");
            ++st;
        }
        if (stop >= m.size()) SIM_CHECK(st.empty(), "stream-size", "stream is not empty at the end");
    }
    void scan(const Model& m, long a, long b)
    {
        size_t stop = a % 3 == 0 ? (size_t)b % (m.size() + 1) : m.size();
        if (a % 2) { Q::stream st = q->get_stream(); scan1(st, m, false, stop); }
        else { Q::reverse_stream st = q->get_reverse_stream(); scan1(st, m, true, stop); }
    }
};
struct DequeBox : Box
{
    typedef stxxl::VECTOR_GENERATOR<T, 1, 4, BS, stxxl::RC, stxxl::lru>::result V;
    typedef stxxl::deque<T, V> Q;
    Q* q;
    DequeBox(Q* x) : q(x) { }
    ~DequeBox() { delete q; }
    void push(const T& x) { q->push_back(x); }
    void pop() { q->pop_back(); }
    void push_front(const T& x) { q->push_front(x); }
    void pop_front() { q->pop_front(); }
    T& back() { return q->back(); }
    const T& cback() { return const_cast<const Q*>(q)->back(); }
    T* front() { return &q->front(); }
    u64 size() { return q->size(); }
    bool empty() { return q->empty(); }
    void swap(Box& o) { q->swap(*static_cast<DequeBox&>(o).q); }
    bool two_ended() { return true; }
    bool resize(size_t n) { q->resize(n); return true; }
    bool clear() { q->clear(); return true; }
    void scan(const Model& m, long a, long)
    {
        const Q& c = *q; size_t i = 0;
        switch (a % 4) {
        case 0: for (Q::iterator it = q->begin(); it != q->end(); ++it, ++i) chkel(*it, m[i], i, "iteration"); break;
        case 1: for (Q::const_iterator it = c.begin(); it != c.end(); it++, ++i) chkel(*it, m[i], i, "const iteration"); break;
        case 2: for (Q::reverse_iterator it = q->rbegin(); it != q->rend(); ++it, ++i) chkel(*it, m[m.size() - 1 - i], m.size() - 1 - i, "reverse iteration"); break;
        default: for (Q::const_reverse_iterator it = c.rbegin(); it != c.rend(); ++it, ++i) chkel(*it, m[m.size() - 1 - i], m.size() - 1 - i, "const reverse iteration"); break;
        }
        SIM_CHECK(i == m.size(), "wrong-size", "iteration visits %zu of %zu elements", i, m.size());
        SIM_CHECK((size_t)(q->end() - q->begin()) == m.size() && (size_t)(c.end() - c.begin()) == m.size(), "wrong-size", "end-begin is wrong");
    }
    void access(Model& m, long a, long b, u64& next)
    {
        if (m.empty()) return;
        for (long k = 0; k < 4; ++k) {
            size_t i = (size_t)(a + k * b) % m.size(), j = (size_t)(a + b) % m.size();
            const Q& c = *q;
            if ((a + k) % 2) { (*q)[i] = T(next); m[i] = Item(next++); }
            chkel(c[i], m[i], i, "operator[]");
            Q::iterator it = q->begin() + i; chkel(*it, m[i], i, "iterator +");
            it += j; it -= j; chkel(*it, m[i], i, "iterator += -=");
            SIM_CHECK((size_t)(it - q->begin()) == i, "wrong-distance", "distance of iterators is wrong");
            if (i < j) SIM_CHECK(it < q->begin() + j && q->begin() + j > it, "wrong-order", "order of iterators is wrong");
        }
    }
    void compare(Box& o, bool eq, bool lt)
    {
        Q& p = *static_cast<DequeBox&>(o).q;
        if (p.size() == q->size()) SIM_CHECK((*q == p) == eq, "wrong-compare", "operator== is wrong");
        SIM_CHECK((*q < p) == lt, "wrong-compare", "operator< is wrong");
    }
};

struct Run
{
    Box* b[3]; Model m[3]; pool_t* pool; const sim::Case* cs; int kind, nobj; u64 next; size_t maxn; bool shared;
    long p0; std::vector<stxxl::BID<BS> > sq; block* sqb;

    Box* make()
    {
        long w = cs->get("w") + (kind == SEQ), a = cs->get("aggr"); // a stream over a sequence takes a third block
        typedef stxxl::normal_stack<stxxl::stack_config_generator<T, 2, BS, stxxl::striping> > N2;
        typedef stxxl::normal_stack<stxxl::stack_config_generator<T, 1, BS, stxxl::FR> > N1;
        typedef stxxl::grow_shrink_stack<stxxl::stack_config_generator<T, 2, BS, stxxl::RC> > G2;
        typedef stxxl::grow_shrink_stack<stxxl::stack_config_generator<T, 1, BS, stxxl::SR> > G1;
        switch (kind) {
        case NORMAL: return new CopyStackBox<N2>;
        case NORMAL1: return new CopyStackBox<N1>;
        case GROW: return new CopyStackBox<G2>;
        case GROW1: return new CopyStackBox<G1>;
        case GROW2: return new Grow2Box(*pool, (unsigned)(a < 0 ? 0 : a));
        case MIGRATE: { typedef stxxl::migrating_stack<40, N2, std::stack<T> > M; return new StackBox<M>(new M); }
        case QUEUE: return new QueueBox(shared ? new QueueBox::Q(*pool, (int)a) : cs->get("d") ? new QueueBox::Q((stxxl::int_type)-1) : new QueueBox::Q((stxxl::unsigned_type)w, (stxxl::unsigned_type)p0, (int)a));
        case SEQ: return new SeqBox(shared ? new SeqBox::Q(*pool, (int)a) : cs->get("d") ? new SeqBox::Q((stxxl::int_type)-1) : new SeqBox::Q((stxxl::unsigned_type)w, (stxxl::unsigned_type)p0, (int)a));
        default: return new DequeBox(cs->get("n0") ? new DequeBox::Q((stxxl::uint64)cs->get("n0")) : new DequeBox::Q);
        }
    }
    void ends(Box& x, Model& md, const char* how)
    {
        SIM_CHECK(x.size() == md.size() && x.empty() == md.empty(), "wrong-size", "%s: size is %llu, expected %zu", how, x.size(), md.size());
        if (md.empty()) return;
        chkel(x.cback(), md.back(), md.size() - 1, how); chkel(x.back(), md.back(), md.size() - 1, how);
        T* f = x.front(); if (f) chkel(*f, md.front(), 0, how);
    }
    void push(Box& x, Model& md) { if (md.size() >= maxn) return; x.push(T(next)); sim::NoPreempt np; md.push_back(Item(next++)); }
    void pushf(Box& x, Model& md) { if (md.size() >= maxn) return; x.push_front(T(next)); sim::NoPreempt np; md.push_front(Item(next++)); }
    void pop(Box& x, Model& md)
    {
        if (md.empty()) return;
        if (x.fifo()) { chkel(*x.front(), md.front(), 0, "front before pop"); x.pop(); sim::NoPreempt np; md.pop_front(); }
        else { chkel(x.back(), md.back(), md.size() - 1, "top before pop"); x.pop(); sim::NoPreempt np; md.pop_back(); }
    }
    void popf(Box& x, Model& md)
    {
        if (md.empty()) return;
        chkel(*x.front(), md.front(), 0, "front before pop"); x.pop_front(); sim::NoPreempt np; md.pop_front();
    }
    void step(const sim::Op& op)
    {
        size_t xi = (size_t)op.a[0] % (size_t)nobj, yi = (xi + 1) % (size_t)nobj;
        Box& x = *b[xi]; Model& md = m[xi];
        long k = op.a[1] % 3 == 0 ? op.a[2] % (EPB * 7) : op.a[2] % (EPB + 3);
        switch (op.code) {
        case PUSH: for (long i = 0; i <= k; ++i) push(x, md); break;
        case POP: for (long i = 0; i <= k; ++i) pop(x, md); break;
        case PUSHF: for (long i = 0; i <= k; ++i) if (x.two_ended()) pushf(x, md); else push(x, md); break;
        case POPF: for (long i = 0; i <= k; ++i) if (x.two_ended()) popf(x, md); else pop(x, md); break;
        case MODIFY:
            if (md.empty()) break;
            x.back() = T(next); md.back() = Item(next++);
            if (x.front()) { *x.front() = T(next); md.front() = Item(next++); }
            break;
        case SWAP: if (nobj < 2) break; x.swap(*b[yi]); md.swap(m[yi]); ends(x, md, "after swap"); ends(*b[yi], m[yi], "after swap"); break;
        case AGGR: x.aggr(op.a[2] % 6 - (kind == GROW2 ? 0 : 1) < 0 ? -1 : op.a[2] % 6); break;
        case RECREATE: delete b[xi]; b[xi] = NULL; b[xi] = make(); { sim::NoPreempt np; md.clear(); if (kind == DEQUE) md.resize((size_t)cs->get("n0"), Item(0, false)); } break;
        case COPY: { std::stack<T> st; Model nm; for (long i = 0; i < op.a[2] % (EPB * 6); ++i) { st.push(T(next)); nm.push_back(Item(next++)); } if (x.copy_from(st)) md.swap(nm); break; }
        case SCAN: x.scan(md, op.a[1], op.a[2]); break;
        case ACCESS: x.access(md, op.a[1], op.a[2], next); break;
        case RESIZE: { size_t n = (size_t)op.a[2] % (md.size() + 20); if (op.a[1] % 4 == 0) n = (size_t)op.a[2] % maxn; if (x.resize(n)) { sim::NoPreempt np; md.resize(n, Item(0, false)); } break; }
        case CLEAR: if (op.a[1] % 3 == 0 && x.clear()) { sim::NoPreempt np; md.clear(); } break;
        case COMPARE: {
            if (nobj < 2) break;
            bool kn = true, eq = md.size() == m[yi].size(), lt; { sim::NoPreempt np;
                std::vector<u64> p, q; for (size_t i = 0; i < md.size(); ++i) { p.push_back(md[i].v); kn = kn && md[i].known; }
                for (size_t i = 0; i < m[yi].size(); ++i) { q.push_back(m[yi][i].v); kn = kn && m[yi][i].known; }
                eq = p == q; lt = p < q; }
            if (kn) x.compare(*b[yi], eq, lt);
            break;
        }
        case POOLSIZE: if (!pool) break; pool->resize_prefetch((stxxl::unsigned_type)(pool->size_prefetch() - pool->free_size_prefetch() + (stxxl::unsigned_type)op.a[2] % 4)); x.aggr(-1 > op.a[1] ? 0 : op.a[1] % 4); break;
        case OSC: for (long i = 0; i < op.a[1] % 9; ++i) { for (long j = 0; j <= op.a[2] % 5; ++j) if (op.a[3] % 2 && x.two_ended()) pushf(x, md); else push(x, md); for (long j = 0; j <= op.a[2] % 5 + (op.a[3] % 3 - 1); ++j) if (op.a[3] % 4 == 1 && x.two_ended()) popf(x, md); else pop(x, md); } break;
        }
        if (op.code == SQUAT) {  // blocks given back by a container must not be written by it any more
            stxxl::BID<BS> id[6]; int cnt = 1 + (int)(op.a[2] % 6);
            stxxl::block_manager::get_instance()->new_blocks(stxxl::striping(), id, id + cnt);
            for (int i = 0; i < cnt; ++i) { for (int j = 0; j < EPB; ++j) (*sqb)[j] = T(1000000 + sq.size()); sqb->write(id[i])->wait(); sim::NoPreempt np; sq.push_back(id[i]); }
        }
        ends(*b[xi], m[xi], op.code < NOPS ? opn[op.code] : "?");
    }
    void go(const sim::Case& c)
    {
        cs = &c; kind = (int)c.get("kind"); nobj = (int)c.get("nobj"); next = 1; maxn = (size_t)c.get("maxn"); p0 = c.get("p"); pool = NULL; sqb = new block;
        shared = (kind == QUEUE || kind == SEQ) && c.get("shared");
        if (kind == GROW2 || shared) pool = new pool_t((stxxl::unsigned_type)p0, (stxxl::unsigned_type)(c.get("w") + 3 * nobj));
        for (int i = 0; i < nobj; ++i) { b[i] = NULL; b[i] = make(); if (kind == DEQUE) m[i].resize((size_t)c.get("n0"), Item(0, false)); }
        for (size_t k = 0; k < c.ops.size(); ++k) step(c.ops[k]);
        for (int i = 0; i < nobj; ++i) {
            b[i]->scan(m[i], 1, 0); b[i]->scan(m[i], 2, 0);
            if (c.get("drain")) { while (!m[i].empty()) pop(*b[i], m[i]); ends(*b[i], m[i], "after draining"); }
        }
        for (int i = 0; i < nobj; ++i) delete b[i];
        delete pool;
        for (size_t i = 0; i < sq.size(); ++i) { sqb->read(sq[i])->wait(); for (int j = 0; j < EPB; ++j) chkel((*sqb)[j], Item(1000000 + i), i, "block of another user"); stxxl::block_manager::get_instance()->delete_block(sq[i]); }
        delete sqb;
    }
};

struct H : ContHarness
{
    const char* name() { return "stacks"; }
    std::string describe(const sim::Op& o) { char s[120]; snprintf(s, sizeof s, "container %ld: %s (%ld %ld %ld)", o.a[0], o.code < NOPS ? opn[o.code] : "?", o.a[1], o.a[2], o.a[3]); return s; }
    void gen(sim::Rng& r, sim::Case& c, bool thorough)
    {
        c.set("kind", r.range(0, NKIND - 1)); c.set("nobj", r.pick({ 1L, 1L, 2L, 3L })); c.set("maxn", r.pick({ 20L, 60L, 150L, 400L }));
        c.set("w", r.range(2, 5)); c.set("p", r.range(0, 4)); c.set("aggr", r.range(-1, 4)); c.set("shared", r.range(0, 1)); c.set("d", r.chance(1, 4));
        c.set("n0", r.chance(1, 3) ? r.range(0, 50) : 0); c.set("drain", r.chance(2, 3));
        long n = r.range(3, thorough ? 80 : 30), bias = r.range(2, 8);
        for (long i = 0; i < n; ++i) {
            int op = (int)r.range(0, NOPS - 1);
            if (r.chance((unsigned)bias, 10)) op = r.pick({ (int)PUSH, (int)PUSH, (int)PUSHF, (int)POP, (int)POPF, (int)OSC });
            if (op == RECREATE && r.chance(2, 3)) op = OSC;
            c.ops.push_back(sim::Op(op, r.range(0, 2), (long)r.below(10000), (long)r.below(10000), (long)r.below(10000)));
        }
    }
    void body(const sim::Case& c) { std::unique_ptr<Run> r(new Run); r->go(c); }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
