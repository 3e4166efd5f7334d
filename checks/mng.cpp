// Block manager harness: threads allocate, write, read and delete blocks of mixed sizes concurrently.
// MODE 8 isolation (overlap, bounds, contents), 9 accounting (totals, failure atomicity, reuse)
#include "disks.h"
#include <stxxl/bits/mng/block_alloc.h>
#include <map>
#ifndef MODE
#define MODE 8
#endif
using namespace chk;
using stxxl::request_ptr;

namespace {
enum { ALLOC, DEL, WRITE, READ, SLEEP, WREAD, DDEL, NOPS };
const char* opn[] = { "alloc", "delete", "write", "read+verify", "sleep", "write-async+read", "double-delete" };
struct Fixed { unsigned d; explicit Fixed(unsigned x) : d(x) { } stxxl::unsigned_type operator () (stxxl::unsigned_type) const { return d; } };
struct Blk { stxxl::file* f; u64 off; int cls; u64 tag; };
std::vector<Blk> pool;
std::map<stxxl::file*, std::map<u64, u64> > live; // file -> start -> end
u64 live_bytes, next_tag;
long nd; int T; const sim::Case* cs;
unsigned long nalloc_fail;
size_t csize(int cls) { return (size_t)4096 * (size_t)(cls + 1); }

void add_live(const Blk& b)
{
    sim::NoPreempt np;
    u64 s = b.off, e = b.off + csize(b.cls);
    SIM_CHECK(s % 4096 == 0, "unaligned-block", "allocated block offset %llu is not aligned", s);
    std::map<u64, u64>& m = live[b.f];
    std::map<u64, u64>::iterator it = m.lower_bound(s);
    if (it != m.end()) SIM_CHECK(it->first >= e, "overlap", "new block [%llu,%llu) overlaps live block [%llu,%llu)", s, e, it->first, it->second);
    if (it != m.begin()) { --it; SIM_CHECK(it->second <= s, "overlap", "new block [%llu,%llu) overlaps live block [%llu,%llu)", s, e, it->first, it->second); }
    m[s] = e; live_bytes += e - s;
}
void del_live(const Blk& b) { sim::NoPreempt np; live[b.f].erase(b.off); live_bytes -= csize(b.cls); }

template <unsigned BS>
struct Ops
{
    typedef stxxl::BID<BS> bid;
    static bool alloc(int cls, long n, long strat, long arg)
    {
        std::vector<bid> v((size_t)n);
        stxxl::block_manager* bm = stxxl::block_manager::get_instance();
        sim::u64 t0 = sim::fault_count(sim::F_TRUNC_FAIL);
        try {
            switch (strat % 5) {
            case 0: bm->new_blocks(stxxl::striping(), v.begin(), v.end(), (stxxl::unsigned_type)arg); break;
            case 1: bm->new_blocks(stxxl::FR(), v.begin(), v.end()); break;
            case 2: bm->new_blocks(stxxl::SR(), v.begin(), v.end(), (stxxl::unsigned_type)arg); break;
            case 3: bm->new_blocks(stxxl::RC(), v.begin(), v.end(), (stxxl::unsigned_type)arg); break;
            default: if (n == 1) bm->new_block(stxxl::single_disk((int)(arg % nd)), v[0]); else bm->new_blocks(stxxl::single_disk((int)(arg % nd)), v.begin(), v.end()); break;
            }
        }
        catch (stxxl::bad_ext_alloc&) { sim::probe("bad_ext_alloc"); sim::NoPreempt np; nalloc_fail++; return false; }
        catch (stxxl::io_error&) {
            SIM_CHECK(sim::fault_count(sim::F_TRUNC_FAIL) > 0, "phantom-error", "allocation raised io_error although the file system reported none");
            sim::probe("growth-failed"); (void)t0; sim::NoPreempt np; nalloc_fail++; return false;
        }
        for (size_t i = 0; i < v.size(); ++i) {
            Blk b; b.f = v[i].storage; b.off = (u64)v[i].offset; b.cls = cls; b.tag = 0;
            SIM_CHECK(v[i].valid() && v[i].is_managed(), "invalid-bid", "allocated block identifier is not valid");
            long ty = cget(*cs, "d", b.f->get_allocator_id(), "type");
            if (ty != D_FPBS && ty != D_FPBM)
                SIM_CHECK(b.off + csize(cls) <= b.f->size(), "block-outside-disk", "block [%llu,%llu) lies behind the end of its disk (%llu bytes)", b.off, b.off + csize(cls), (u64)b.f->size());
            add_live(b);
            sim::NoPreempt np; pool.push_back(b);
        }
        return true;
    }
    static bool del(const Blk& b)
    {
        bid x; x.storage = b.f; x.offset = (stxxl::int64)b.off;
        try { stxxl::block_manager::get_instance()->delete_block(x); }
        catch (stxxl::bad_ext_alloc&) { return false; }
        return true;
    }
    static void delv(const std::vector<Blk>& bs)
    {
        std::vector<bid> v;
        for (size_t i = 0; i < bs.size(); ++i) { bid x; x.storage = bs[i].f; x.offset = (stxxl::int64)bs[i].off; v.push_back(x); }
        stxxl::block_manager::get_instance()->delete_blocks(v.begin(), v.end());
    }
};
bool alloc(int cls, long n, long s, long a) { return cls == 0 ? Ops<4096>::alloc(0, n, s, a) : cls == 1 ? Ops<8192>::alloc(1, n, s, a) : cls == 2 ? Ops<12288>::alloc(2, n, s, a) : Ops<20480>::alloc(4, n, s, a); }
bool del(const Blk& b) { return b.cls == 0 ? Ops<4096>::del(b) : b.cls == 1 ? Ops<8192>::del(b) : b.cls == 2 ? Ops<12288>::del(b) : Ops<20480>::del(b); }

void verify_buf(const Blk& b, const char* buf)
{
    for (size_t u = 0; u < csize(b.cls); u += 4096) {
        long w = check(buf + u, 4096, b.tag + u / 4096);
        SIM_CHECK(w < 0, "block-content", "block at %llu (%zu bytes): word %ld is %llx, expected the data of version %llu written by its owner", b.off, csize(b.cls), w + (long)(u / 8), ((const u64*)(buf + u))[w], b.tag);
    }
}
void write_blk(Blk& b)
{
    char* buf = (char*)abuf(csize(b.cls));
    { sim::NoPreempt np; b.tag = next_tag; next_tag += 8; }
    for (size_t u = 0; u < csize(b.cls); u += 4096) fill(buf + u, 4096, b.tag + u / 4096);
    b.f->awrite(buf, b.off, csize(b.cls))->wait();
    afree(buf);
}
void read_blk(const Blk& b)
{
    if (!b.tag) return;
    char* buf = (char*)abuf(csize(b.cls)); memset(buf, 0x33, csize(b.cls));
    b.f->aread(buf, b.off, csize(b.cls))->wait();
    verify_buf(b, buf);
    afree(buf);
}
void accounting(const char* when)
{
    stxxl::block_manager* bm = stxxl::block_manager::get_instance();
    u64 tot = bm->get_total_bytes(), fr = bm->get_free_bytes(), cur = bm->get_current_allocation();
    SIM_CHECK(fr <= tot && tot - fr == live_bytes, "accounting", "%s: total %llu - free %llu bytes differs from the %llu bytes allocated", when, tot, fr, live_bytes);
    SIM_CHECK(cur == live_bytes, "allocation-counter", "%s: current allocation counter is %llu, %llu bytes are allocated", when, cur, live_bytes);
    SIM_CHECK(bm->get_maximum_allocation() >= cur && bm->get_total_allocation() >= bm->get_maximum_allocation(), "allocation-maximum", "%s: maximum or total allocation counter too small", when);
}
bool take(long sel, Blk& b)
{
    sim::NoPreempt np;
    if (pool.empty()) return false;
    size_t i = (size_t)sel % pool.size();
    b = pool[i]; pool.erase(pool.begin() + (long)i);
    return true;
}
void put(const Blk& b) { sim::NoPreempt np; pool.push_back(b); }

void client(const std::vector<sim::Op>& ops)
{
    for (size_t k = 0; k < ops.size(); ++k) {
        const sim::Op& o = ops[k];
        Blk b;
        switch (o.code) {
        case ALLOC: {
            bool ok = alloc((int)(o.a[1] % 4), 1 + o.a[2] % 6, o.a[3], o.a[4]);
            if (!ok && T == 1) accounting("after a failed allocation");
            break;
        }
        case DEL: case DDEL:
            if (take(o.a[2], b)) {
                del_live(b);
                SIM_CHECK(del(b), "delete-failed", "deleting an allocated block raised an error");
                if (o.code == DDEL && T == 1) {
                    SIM_CHECK(!del(b), "double-delete", "deleting a block twice was not rejected");
                    accounting("after deleting a block twice");
                }
            }
            break;
        case WRITE: if (take(o.a[2], b)) { write_blk(b); put(b); } break;
        case READ: if (take(o.a[2], b)) { read_blk(b); put(b); } break;
        case WREAD:
            if (take(o.a[2], b)) { write_blk(b); sim::yield(); read_blk(b); put(b); }
            break;
        case SLEEP: sim::sleep_us((u64)(o.a[2] % 500)); break;
        }
        if (T == 1 && MODE == 9) accounting("during a single-threaded history");
    }
}

struct M : sim::Harness
{
    const char* name() { return "mng"; }
    std::string describe(const sim::Op& o)
    {
        char b[160];
        if (o.code == ALLOC) snprintf(b, sizeof b, "thread %ld: allocate %ld blocks of %ld bytes, strategy %ld offset %ld", o.a[0], 1 + o.a[2] % 6, 4096 * (o.a[1] % 4 == 3 ? 5 : o.a[1] % 4 + 1), o.a[3] % 5, o.a[4]);
        else snprintf(b, sizeof b, "thread %ld: %s block %ld", o.a[0], o.code < NOPS ? opn[o.code] : "?", o.a[2]);
        return b;
    }
    void generate(sim::Rng& r, sim::Case& c, bool thorough)
    {
        sim::gen_schedule(r, c, true);
        long Tn = MODE == 9 ? r.pick({ 1L, 1L, 2L, 3L }) : r.range(1, 4); c.set("T", Tn);
        DiskGen g; g.noautogrow = r.chance(1, 2); g.maxkb = r.pick({ 32L, 64L, 256L }); g.maxd = 4;
        gen_disks(r, c, g);
        if (MODE == 8) gen_env_faults(r, c);
        else {
            if (r.chance(1, 3)) sim::gen_fault(c, sim::F_SPURIOUS, 1000);
            if (r.chance(1, 2)) sim::gen_fault(c, sim::F_TRUNC_FAIL, r.pick({ 300L, 2000L, 6000L }));
        }
        long nops = r.range(6, thorough ? 120 : 50);
        for (long i = 0; i < nops; ++i) {
            long w = MODE == 8 ? r.pick({ (long)ALLOC, (long)ALLOC, (long)ALLOC, (long)DEL, (long)DEL, (long)WRITE, (long)WRITE, (long)READ, (long)READ, (long)WREAD, (long)SLEEP })
                               : r.pick({ (long)ALLOC, (long)ALLOC, (long)ALLOC, (long)DEL, (long)DEL, (long)DEL, (long)DDEL });
            c.ops.push_back(sim::Op((int)w, r.range(0, Tn - 1), r.below(4), (long)r.below(1000), (long)r.below(5), (long)r.below(20)));
        }
        c.set("s.limit", 60000);
    }
    void run(const sim::Case& c)
    {
        sim::faults_on(false);
        pool.clear(); live.clear(); live_bytes = 0; next_tag = 1000; nalloc_fail = 0;
        setup_disks(c); cs = &c;
        nd = c.get("nd", 1); T = (int)c.get("T", 1);
        std::vector<std::vector<sim::Op> > ops((size_t)T);
        for (size_t i = 0; i < c.ops.size(); ++i) ops[(size_t)(c.ops[i].a[0] % T)].push_back(c.ops[i]);
        sim::faults_on(true);
        std::vector<int> ids;
        for (int t = 1; t < T; ++t) { std::vector<sim::Op>* p = &ops[(size_t)t]; ids.push_back(sim::spawn([p]() { client(*p); }, "client")); }
        client(ops[0]);
        for (size_t i = 0; i < ids.size(); ++i) sim::join(ids[i]);
        sim::faults_on(false);
        for (size_t i = 0; i < pool.size(); ++i) read_blk(pool[i]);
        accounting("after all threads finished");
        // everything freed: the whole space must be allocatable again
        for (int cls = 0; cls < 5; ++cls) {
            std::vector<Blk> v, rest;
            for (size_t i = 0; i < pool.size(); ++i) (pool[i].cls == cls ? v : rest).push_back(pool[i]);
            for (size_t i = 0; i < v.size(); ++i) del_live(v[i]);
            if (cls == 0) Ops<4096>::delv(v); else if (cls == 1) Ops<8192>::delv(v); else if (cls == 2) Ops<12288>::delv(v); else if (cls == 4) Ops<20480>::delv(v);
            pool = rest;
        }
        accounting("after deleting all blocks");
        stxxl::block_manager* bm = stxxl::block_manager::get_instance();
        u64 tot = bm->get_total_bytes();
        for (long d = 0; d < nd; ++d) {
            u64 n = (u64)(nd == 1 ? tot : (u64)cget(c, "d", d, "kb") * 1024) / 4096;
            if (!n) continue;
            std::vector<stxxl::BID<4096> > v((size_t)n);
            bool ok = true;
            try { bm->new_blocks(Fixed((unsigned)d), v.begin(), v.end()); }
            catch (stxxl::bad_ext_alloc&) { ok = false; }
            SIM_CHECK(ok, "space-lost", "disk %ld: %llu blocks cannot be allocated although everything is free", d, n);
            for (size_t i = 1; i < v.size(); ++i)
                SIM_CHECK(v[i].offset == v[i - 1].offset + 4096, "fragmented", "disk %ld: free space is fragmented although everything was freed (blocks %zu, %zu at %lld, %lld)", d, i - 1, i, (long long)v[i - 1].offset, (long long)v[i].offset);
            SIM_CHECK(bm->get_total_bytes() == tot, "grown", "disk %ld grew although everything was free", d);
            bm->delete_blocks(v.begin(), v.end());
        }
        accounting("at the end");
        live.clear(); pool.clear();
    }
};
M theh;
}
sim::Harness* sim::harness() { return &theh; }
