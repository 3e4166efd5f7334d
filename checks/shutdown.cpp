// The end of a program (C26): requests in flight, containers of static storage duration, containers abandoned by exit(),
// user files and queues of one's own at the moment main() returns; then the exit handlers run, and everything submitted
// must have been carried out, all threads, descriptors and AIO contexts be gone, and the disk files be as configured.
#define STXXL_DEFAULT_BLOCK_SIZE(type) 4096
#include "cont.h"
#include <stxxl/vector>
#include <stxxl/stack>
#include <stxxl/queue>
#include <stxxl/sequence>
#include <stxxl/deque>
#include <stxxl/priority_queue>
#include <stxxl/map>
#include <stxxl/unordered_map>
#include <stxxl/sorter>
#include <stxxl/bits/io/create_file.h>
#include <stxxl/bits/io/request_queue_impl_1q.h>
#include <stxxl/bits/io/request_queue_impl_qwqr.h>
#include <stxxl/bits/io/serving_request.h>
using namespace chk;
using sim::u64;
using stxxl::request_ptr;

namespace {
enum { WRITE, READ, BWRITE, BREAD, WAIT, DROP, CANCEL, QUEUE, STATIC, LOCAL, ABANDON, LOG, NOPS };
const char* opn[] = { "write user file", "read user file", "write block", "read block", "wait", "drop handle", "cancel", "queue of one's own", "static container", "local container", "container abandoned", "log a message" };
const int BS = 4096, NB = 12, MAXH = 512, NCL = 3;
const u64 UNKNOWN = ~0ull;

struct Place // one block of a user file or of the external memory
{
    bool used, pend, write; stxxl::file* f; u64 off, tag, ntag; int h; request_ptr* r; char* buf;
    std::string* path; bool flat;
};
struct HS { int n; bool cancelled, over; } hs[MAXH]; int nh;
u64 next_tag;
struct UF { stxxl::file* f; int type; } uf[3]; int nuf;
Place* pl; int npl; // leaked with the program
int nbid;
bool abandoned, blocks_left, exiting;
unsigned long wanted_fds;

struct Handler
{
    int id;
    void operator () (stxxl::request*)
    {
        if (hs[id].over) sim::violation("handler-late", "the handler of request %d runs after the program has ended", id);
        if (++hs[id].n > 1) sim::violation("handler-twice", "the handler of request %d ran %d times", id, hs[id].n);
        if (exiting) sim::probe("completed-at-exit");
    }
};
const char* tname[] = { "syscall", "mmap", "linuxaio", "memory" };

void over(Place& p, bool cancelled) // the request of this place is finished
{
    sim::NoPreempt np;
    HS& h = hs[p.h];
    SIM_CHECK(h.n == (cancelled ? 0 : 1), cancelled ? "handler-on-cancelled" : "request-lost", "request %d (%s) finished%s, its handler ran %d times", p.h, p.write ? "write" : "read", cancelled ? " by cancellation" : "", h.n);
    h.over = true;
    if (!cancelled) {
        if (p.write) p.tag = p.ntag;
        else if (p.tag != UNKNOWN) SIM_CHECK(chk::check(p.buf, BS, p.tag) < 0, "wrong-data", "request %d read wrong data", p.h);
    }
    p.pend = false; if (p.r) { *p.r = request_ptr(); delete p.r; p.r = NULL; }
    afree(p.buf); p.buf = NULL;
}
void wait(Place& p)
{
    if (!p.pend) return;
    if (p.r) (*p.r)->wait(); else while (!hs[p.h].n) sim::sleep_us(50);
    if (!p.r) while (p.f->get_request_nref()) sim::sleep_us(50);
    over(p, false);
}
void submit(Place& p, bool wr)
{
    wait(p);
    Handler hd;
    { sim::NoPreempt np; if (nh >= MAXH) return; p.h = hd.id = nh++; p.ntag = next_tag++; }
    p.write = wr; p.buf = (char*)abuf(BS);
    if (wr) fill(p.buf, BS, p.ntag); else memset(p.buf, 0xA5, BS);
    p.pend = true;
    p.r = new request_ptr(wr ? p.f->awrite(p.buf, p.off, BS, hd) : p.f->aread(p.buf, p.off, BS, hd));
}

// ---- containers
typedef Elem<512> T;
enum { NKIND = 13 };
struct Box
{
    long n; u64 base; int kind;
    Box() : n(0), base(0), kind(0) { }
    virtual ~Box() { }
    virtual void put(long) = 0;          // element i has the value base + i
    virtual void look1(long i, long n) = 0;
    virtual bool pops() { return true; }
    void fill(long k)
    {
        n = k; { sim::NoPreempt np; base = next_tag; next_tag += (u64)n + 1; }
        for (long i = 0; i < n; ++i) put(i);
    }
    void el(u64 v, bool ok, long i) { sim::NoPreempt np; SIM_CHECK(v == base + (u64)i && ok, "wrong-element", "container kind %d: element %ld is %llu, expected %llu", kind, i, v, base + (u64)i); }
    void el(const T& x, long i) { el(x.v, x.ok(), i); }
    void look(long upto) { for (long i = 0; i < n && i < upto; ++i) look1(i, n); }
};
typedef stxxl::VECTOR_GENERATOR<T, 2, 2, BS, stxxl::striping, stxxl::lru>::result V;
struct VBox : Box
{
    V v;
    void put(long i) { v.push_back(T(base + (u64)i)); }
    void look1(long i, long) { const V& c = v; el(c[(size_t)i], i); }
};
struct FileBox : Box // a file and a vector on it
{
    char path[40]; stxxl::file* f; V* v;
    FileBox() { static int nvf; { sim::NoPreempt np; snprintf(path, sizeof path, "/sim/vec%d", nvf++); } f = stxxl::create_file(nvf % 2 ? "syscall" : "linuxaio", path, stxxl::file::CREAT | stxxl::file::RDWR, 0); v = new V(f); }
    ~FileBox()
    {
        delete v; delete f;
        sim::NoPreempt np; sim::VStat s = sim::vfs_stat(path);
        SIM_CHECK(s.exists && s.size == (u64)n * sizeof(T), "file-size", "%s has %llu bytes after the vector of %ld elements was destroyed", path, s.size, n);
        for (long i = 0; i < n; ++i) { T x; memset((void*)&x, 0, sizeof x); sim::vfs_read(path, (u64)i * sizeof(T), &x, sizeof x); el(x, i); }
    }
    void put(long i) { v->push_back(T(base + (u64)i)); }
    void look1(long i, long) { const V& c = *v; el(c[(size_t)i], i); }
};
template <class S> struct StackBox : Box
{
    S s;
    void put(long i) { s.push(T(base + (u64)i)); }
    void look1(long i, long n) { el(s.top(), n - 1 - i); s.pop(); }
};
typedef stxxl::STACK_GENERATOR<T, stxxl::external, stxxl::normal, 1, BS>::result ST;
typedef stxxl::STACK_GENERATOR<T, stxxl::external, stxxl::grow_shrink, 1, BS>::result GS;
typedef stxxl::STACK_GENERATOR<T, stxxl::migrating, stxxl::normal, 1, BS, std::stack<T>, 16>::result MS;
typedef stxxl::STACK_GENERATOR<T, stxxl::external, stxxl::grow_shrink2, 1, BS>::result GS2;
struct Gs2Box : Box
{
    stxxl::read_write_pool<GS2::block_type> pool; GS2 s;
    Gs2Box() : pool(2, 2), s(pool, 1) { }
    void put(long i) { s.push(T(base + (u64)i)); }
    void look1(long i, long n) { el(s.top(), n - 1 - i); s.pop(); }
};
struct QBox : Box
{
    stxxl::queue<T, BS> q;
    QBox() : q(2, 2) { }
    void put(long i) { q.push(T(base + (u64)i)); }
    void look1(long i, long) { el(q.front(), i); q.pop(); }
};
struct SeqBox : Box
{
    stxxl::sequence<T, BS> q;
    SeqBox() : q(2, 2) { }
    void put(long i) { q.push_back(T(base + (u64)i)); }
    void look1(long i, long) { el(q.front(), i); q.pop_front(); }
};
struct DequeBox : Box
{
    stxxl::deque<T, V> q;
    void put(long i) { q.push_back(T(base + (u64)i)); }
    void look1(long i, long) { el(q.front(), i); q.pop_front(); }
};
struct Less
{
    bool operator () (const T& a, const T& b) const { return a.v < b.v; }
    T min_value() const { return T(0); } T max_value() const { return T(~0ull); }
};
struct Greater { bool operator () (const T& a, const T& b) const { return a.v > b.v; } T min_value() const { return T(~0ull); } };
struct PqBox : Box
{
    stxxl::priority_queue<stxxl::priority_queue_config<T, Greater, 4, 4, 2, 2, BS, 2, 2, stxxl::RC> > q;
    PqBox() : q(2 * BS, 4 * BS) { }
    void put(long i) { q.push(T(base + (u64)((i * 7919) % n))); }
    void look1(long i, long) { if (n % 7919) el(q.top(), i); q.pop(); }
};
struct KLess { bool operator () (u64 a, u64 b) const { return a < b; } static u64 max_value() { return ~0ull; } static u64 min_value() { return 0; } };
struct KHash { size_t operator () (u64 k) const { return (size_t)(k * 0x9E3779B97F4A7C15ull); } };
struct MapBox : Box
{
    typedef stxxl::map<u64, T, KLess, BS, BS> M; M m;
    MapBox() : m(3 * BS, 3 * BS) { }
    void put(long i) { m.insert(std::make_pair(base + (u64)i, T(base + (u64)i))); }
    void look1(long i, long) { const M& c = m; M::const_iterator it = c.find(base + (u64)i); SIM_CHECK(it != c.end(), "wrong-element", "map: key %llu is lost", base + (u64)i); el(it->second, i); }
};
struct UmapBox : Box
{
    typedef stxxl::unordered_map<u64, T, KHash, KLess, BS, 2> M; M m;
    UmapBox() : m(4, KHash(), KLess(), 8 * 1024) { }
    void put(long i) { m.insert(std::make_pair(base + (u64)i, T(base + (u64)i))); }
    void look1(long i, long) { const M& c = m; M::const_iterator it = c.find(base + (u64)i); SIM_CHECK(it != c.end(), "wrong-element", "unordered_map: key %llu is lost", base + (u64)i); el((*it).second, i); }
};
struct SorterBox : Box
{
    stxxl::sorter<T, Less, BS> s; bool sorted;
    SorterBox() : s(Less(), 16 * BS), sorted(false) { }
    void put(long i) { s.push(T(base + (u64)(n - 1 - i))); }
    void look1(long i, long) { if (!sorted) { s.sort(); sorted = true; } el(*s, i); ++s; }
};
bool no_umap;
Box* make(long kind)
{
    kind %= NKIND; if (kind == 11 && no_umap) kind = 10;
    Box* b;
    switch (kind) {
    case 0: b = new VBox; break;
    case 1: b = new FileBox; break;
    case 2: b = new StackBox<ST>; break;
    case 3: b = new StackBox<GS>; break;
    case 4: b = new QBox; break;
    case 5: b = new SeqBox; break;
    case 6: b = new Gs2Box; break;
    case 7: b = new StackBox<MS>; break;
    case 8: b = new DequeBox; break;
    case 9: b = new PqBox; break;
    case 10: b = new MapBox; break;
    case 11: b = new UmapBox; break;
    default: b = new SorterBox; break;
    }
    b->kind = (int)kind;
    return b;
}
// objects of static storage duration: destroyed in reverse order of construction, interleaved with the exit handlers
Box* statics[32]; int nstat; long static_look;
void destroy_static()
{
    Box* b; { sim::NoPreempt np; b = statics[--nstat]; }
    b->look(static_look); delete b;
    sim::probe("static-container-destroyed");
}

struct H : sim::Harness
{
    const char* name() { return "shutdown"; }
    std::string describe(const sim::Op& o) { char b[120]; snprintf(b, sizeof b, "T%ld: %s (%ld %ld %ld)", o.a[0], o.code < NOPS ? opn[o.code] : "?", o.a[1], o.a[2], o.a[3]); return b; }
    void generate(sim::Rng& r, sim::Case& c, bool thorough)
    {
        sim::gen_schedule(r, c, r.chance(1, 5));
        DiskGen g; gen_disks(r, c, g); gen_env_faults(r, c);
        c.set("order", r.range(0, 1)); c.set("inflight", r.chance(3, 4)); c.set("delfiles", r.range(0, 1)); c.set("free", r.range(0, 1)); c.set("look", r.pick({ 0L, 3L, 100L }));
        c.set("nuf", r.range(0, 3)); for (long i = 0; i < 3; ++i) { cset(c, "u", i, "type", r.range(0, 3)); cset(c, "u", i, "q", r.range(0, 2)); cset(c, "u", i, "dir", r.range(0, 1)); }
        c.set("nb", r.pick({ 0L, 4L, 12L })); long T = r.range(1, NCL); c.set("T", T); c.set("s.limit", 2000000);
        unsigned mask = (unsigned)r.next() | 1u << WRITE;
        long n = r.range(0, thorough ? 50 : 24);
        for (long i = 0; i < n; ++i) {
            int op = (int)r.range(0, NOPS - 1);
            if (!(mask >> op & 1)) op = r.pick({ (int)WRITE, (int)READ, (int)BWRITE, (int)BREAD });
            c.ops.push_back(sim::Op(op, r.range(0, T - 1), (long)r.below(1000), (long)r.below(1000), (long)r.below(1000)));
        }
    }
    void run(const sim::Case& c)
    {
        if (c.get("order") == 0) setup_disks(c); else setup_disks(c, false);
        for (long i = 0; i < c.get("nd", 1); ++i) if (cget(c, "d", i, "type") >= D_FPBS) no_umap = true; // known finding of C16
        stxxl::hash_map::tuning::get_instance()->blockcache_size = 3; stxxl::hash_map::tuning::get_instance()->prefetch_page_size = 1; stxxl::hash_map::tuning::get_instance()->prefetch_pages = 2;
        next_tag = 1; static_look = c.get("look");
        nuf = (int)c.get("nuf"); nbid = (int)c.get("nb"); int T = (int)c.get("T", 1);
        npl = 0; pl = new Place[(size_t)(3 * NB + NB)]();
        for (int i = 0; i < nuf; ++i) {
            UF& u = uf[i]; u.type = (int)cget(c, "u", i, "type");
            char p[40]; snprintf(p, sizeof p, "/sim/user%d", i);
            u.f = stxxl::create_file(tname[u.type], p, stxxl::file::CREAT | stxxl::file::RDWR | (cget(c, "u", i, "dir") && u.type != 1 && !c.get("d.noodirect") ? stxxl::file::DIRECT : 0), u.type == 2 ? (int)stxxl::file::DEFAULT_LINUXAIO_QUEUE : (int)cget(c, "u", i, "q"));
            u.f->set_size((u64)NB * BS);
            for (int b = 0; b < NB; ++b) { Place& q = pl[npl++]; q.used = true; q.f = u.f; q.off = (u64)b * BS; q.path = new std::string(p); q.flat = u.type != 3; q.tag = q.flat ? 0 : UNKNOWN; }
        }
        std::vector<std::vector<sim::Op> > ops((size_t)T);
        for (size_t i = 0; i < c.ops.size(); ++i) ops[(size_t)(c.ops[i].a[0] % T)].push_back(c.ops[i]);
        // blocks of external memory are allocated when first used
        std::vector<int> th;
        for (int t = 1; t < T; ++t) th.push_back(sim::spawn([this, &ops, &c, t, T] { client(ops[(size_t)t], c, t, T); }, "client"));
        client(ops[0], c, 0, T);
        for (size_t i = 0; i < th.size(); ++i) sim::join(th[i]);
        std::vector<std::vector<sim::Op> >().swap(ops);
        if (!c.get("inflight")) for (int i = 0; i < npl; ++i) wait(pl[i]);
        if (c.get("free"))
            for (int i = nuf * NB; i < 4 * NB; ++i) if (pl[i].used && pl[i].f && !pl[i].pend) {
                BIDT bid; bid.storage = pl[i].f; bid.offset = (stxxl::int64)pl[i].off;
                stxxl::block_manager::get_instance()->delete_block(bid); pl[i].used = false;
            }
        blocks_left = false;
        for (int i = nuf * NB; i < 4 * NB; ++i) if (pl[i].used) blocks_left = true;
        wanted_fds = 0;
        for (int i = 0; i < nuf; ++i) {
            bool pend = uf[i].f->get_request_nref() != 0;
            if (c.get("delfiles") && !pend) { for (int b = 0; b < NB; ++b) if (pl[i * NB + b].pend) wait(pl[i * NB + b]); delete uf[i].f; uf[i].f = NULL; }
            else if (uf[i].type != 3) ++wanted_fds;
        }
        for (int i = 0; i < 4 * NB; ++i) if (pl[i].pend && !hs[pl[i].h].n) sim::probe("in-flight-at-exit");
        exiting = true;
    }
    typedef stxxl::BID<BS> BIDT;
    Place* place(const sim::Op& o, int t, int T, bool block)
    {
        if (!block) {
            if (!nuf) return NULL;
            long n = nuf * NB, own = (n - t + T - 1) / T; if (own <= 0) return NULL;
            return &pl[t + T * (o.a[1] % own)];
        }
        long own = (nbid - t + T - 1) / T; if (own <= 0) return NULL;
        Place& p = pl[nuf * NB + t + T * (o.a[1] % own)];
        if (!p.f) {
            BIDT b; stxxl::block_manager::get_instance()->new_block(stxxl::striping(), b, (stxxl::unsigned_type)o.a[2]);
            p.f = b.storage; p.off = (u64)b.offset; p.tag = UNKNOWN; p.used = true;
        }
        return &p;
    }
    void client(const std::vector<sim::Op>& ops, const sim::Case& c, int t, int T)
    {
        std::vector<Box*> loc;
        for (size_t k = 0; k < ops.size(); ++k) {
            const sim::Op& o = ops[k];
            switch (o.code) {
            case WRITE: case READ: if (Place* p = place(o, t, T, false)) submit(*p, o.code == WRITE); break;
            case BWRITE: case BREAD: if (Place* p = place(o, t, T, true)) submit(*p, o.code == BWRITE || p->tag == UNKNOWN); break;
            case WAIT: if (Place* p = place(o, t, T, o.a[3] % 2)) wait(*p); break;
            case DROP: if (Place* p = place(o, t, T, o.a[3] % 2)) if (p->pend && p->r) { *p->r = request_ptr(); delete p->r; p->r = NULL; } break;
            case CANCEL: if (Place* p = place(o, t, T, o.a[3] % 2)) if (p->pend && p->r && (*p->r)->cancel()) { (*p->r)->wait(); over(*p, true); sim::probe("cancelled"); } break;
            case QUEUE: own_queue(o, t, T); break;
            case STATIC: {
                Box* b = make(o.a[1]); bool st;
                { sim::NoPreempt np; st = nstat < 32; if (st) statics[nstat++] = b; if (st) atexit(destroy_static); }
                b->fill(o.a[2] % 50);
                if (!st) delete b;
                break;
            }
            case LOCAL: { Box* b = make(o.a[1]); b->fill(o.a[2] % 50); loc.push_back(b); break; }
            case ABANDON: { long k = o.a[1] % NKIND; Box* b = make(k == 1 ? 0 : k); b->fill(o.a[2] % 50); b->look(o.a[3] % 20); abandoned = true; break; }
            case LOG: STXXL_MSG("message " << o.a[1]); break;
            }
        }
        for (size_t k = 0; k < loc.size(); ++k) { loc[k]->look(c.get("look")); delete loc[k]; }
    }
    void own_queue(const sim::Op& o, int t, int T)
    {
        if (!nuf) return;
        stxxl::request_queue* q = o.a[1] % 2 ? (stxxl::request_queue*)new stxxl::request_queue_impl_1q() : (stxxl::request_queue*)new stxxl::request_queue_impl_qwqr();
        std::vector<Place*> mine;
        for (int i = t; i < nuf * NB && (long)mine.size() < 1 + o.a[2] % 6; i += T) {
            Place& p = pl[i];
            if (uf[i / NB].type == 2 || (i * 7 + o.a[3]) % 3 == 0) continue;
            wait(p);
            Handler hd;
            { sim::NoPreempt np; if (nh >= MAXH) break; p.h = hd.id = nh++; p.ntag = next_tag++; }
            p.write = (i + o.a[3]) % 2; p.buf = (char*)abuf(BS);
            if (p.write) chk::fill(p.buf, BS, p.ntag); else memset(p.buf, 0xA5, BS);
            request_ptr r(new stxxl::serving_request(hd, p.f, p.buf, p.off, BS, p.write ? stxxl::request::WRITE : stxxl::request::READ));
            p.pend = true; p.r = NULL;
            q->add_request(r);
            mine.push_back(&p);
        }
        delete q;
        for (size_t k = 0; k < mine.size(); ++k) { SIM_CHECK(hs[mine[k]->h].n == 1, "request-lost", "a queue was destroyed, request %zu of %zu submitted to it was not carried out", k, mine.size()); over(*mine[k], false); }
        sim::probe("queue-destroyed-with-requests", mine.size());
    }
    void after_exit(const sim::Case& c, int)
    {
        sim::NoPreempt np;
        long nd = c.get("nd", 1);
        for (int i = 0; i < 4 * NB; ++i) {
            Place& p = pl[i];
            if (!p.used) continue;
            if (p.pend) over(p, false);
            if (p.path && p.flat && p.tag != UNKNOWN) {
                std::vector<char> b(BS);
                SIM_CHECK(sim::vfs_read(p.path->c_str(), p.off, &b[0], BS) == (size_t)BS && chk::check(&b[0], BS, p.tag) < 0, "write-lost", "%s: what was written at %llu is not on the file after the end of the program", p.path->c_str(), p.off);
            }
        }
        std::vector<std::string> fl; sim::vfs_list(fl);
        for (long i = 0; i < nd; ++i) {
            char p[64], fp[80]; snprintf(p, sizeof p, "/sim/disk%ld", i); snprintf(fp, sizeof fp, "%s_fpb_", p);
            long ty = cget(c, "d", i, "type"), del = cget(c, "d", i, "del");
            bool gone = del == 1 || (del == 2 && (ty == D_SYSCALL || ty == D_AIO || ty == D_MMAP));
            sim::VStat s = sim::vfs_stat(p);
            if (gone) SIM_CHECK(!s.exists, "disk-file-left", "disk file %s is still there, it was to be deleted", p);
            if (!gone && s.exists) SIM_CHECK(s.size == (u64)cget(c, "d", i, "kb") * 1024, "disk-file-size", "disk file %s has %llu bytes after the end, configured are %ld KiB", p, s.size, cget(c, "d", i, "kb"));
            for (size_t k = 0; k < fl.size(); ++k) if (!fl[k].compare(0, strlen(fp), fp)) {
                SIM_CHECK(fl[k].find("_fpb_lock") == std::string::npos, "lock-file-left", "lock file %s is left", fl[k].c_str());
                SIM_CHECK(blocks_left || abandoned, "block-file-left", "%s is left although all blocks were deleted", fl[k].c_str());
            }
        }
        SIM_CHECK((unsigned long)sim::vfs_open_fds() == wanted_fds, "descriptors-left", "%d descriptors are open after the end of the program, %lu of them belong to the user's files", sim::vfs_open_fds(), wanted_fds);
        SIM_CHECK(sim::vfs_aio_contexts() == 0, "aio-context-left", "%d AIO contexts were not destroyed", sim::vfs_aio_contexts());
    }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
