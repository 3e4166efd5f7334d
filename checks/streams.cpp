// Buffered block streams, buffered writer and block prefetcher against a model of the block contents.
#include "disks.h"
#include <stxxl/bits/mng/typed_block.h>
#include <stxxl/bits/mng/buf_ostream.h>
#include <stxxl/bits/mng/buf_istream.h>
#include <stxxl/bits/mng/buf_istream_reverse.h>
#include <stxxl/bits/mng/buf_writer.h>
#include <stxxl/bits/mng/block_prefetcher.h>
#include <stxxl/bits/mng/block_alloc.h>
using namespace chk;
using stxxl::request_ptr;
namespace {
struct E { u64 v; u64 id; u64 pad[62]; };
typedef stxxl::typed_block<4096, E> block; // 8 elements
typedef block::bid_type bid;
const int EPB = block::size;
enum { OSTREAM, OSTREAM2, ISTREAM, RSTREAM, BUFWRITER, PREFETCH, SLEEP, NOPS };
const char* opn[] = { "write stream", "rewrite stream", "read stream", "read stream in reverse", "buffered writer", "prefetcher", "sleep" };

struct Seq { std::vector<bid> b; std::vector<u64> v; }; // v: EPB values per block
struct CountHandler { int* n; void operator () (stxxl::request*) { ++*n; } };

struct Thr
{
    std::vector<Seq> seqs; u64 next; int t;

    void direct(const Seq& s, size_t from, size_t to, const char* how)
    {
        block* k = new block;
        for (size_t i = from; i < to; ++i) {
            k->read(s.b[i])->wait();
            for (int e = 0; e < EPB; ++e)
                SIM_CHECK(k->elem[e].v == s.v[i * EPB + e], "block-content", "%s: block %zu element %d on disk is %llu, expected %llu", how, i, e, k->elem[e].v, s.v[i * EPB + e]);
        }
        delete k;
    }
    void alloc(Seq& s, size_t n, long strat)
    {
        s.b.resize(n); s.v.assign(n * EPB, 0);
        stxxl::block_manager* bm = stxxl::block_manager::get_instance();
        if (strat % 3 == 0) bm->new_blocks(stxxl::striping(), s.b.begin(), s.b.end());
        else if (strat % 3 == 1) bm->new_blocks(stxxl::FR(), s.b.begin(), s.b.end());
        else bm->new_blocks(stxxl::RC(), s.b.begin(), s.b.end());
    }
    void put(block* k, Seq& s, size_t i)
    {
        for (int e = 0; e < EPB; ++e) { k->elem[e].v = next; s.v[i * EPB + e] = next++; }
    }
    void out(Seq& s, size_t from, size_t to, long nbuf, long mode)
    {
        {
            stxxl::buf_ostream<block, std::vector<bid>::iterator> os(s.b.begin() + (long)from, (stxxl::int_type)nbuf);
            u64 n = (to - from) * EPB, stop = mode % 4 == 3 ? n - (u64)(EPB - 1) : n;
            for (u64 i = 0; i < stop; ++i) {
                E e; e.v = next++; s.v[from * EPB + i] = e.v;
                if (mode % 2) { *os = e; ++os; } else os << e;
            }
            if (stop < n) { E e; e.v = next++; for (u64 i = stop; i < n; ++i) s.v[from * EPB + i] = e.v; os.fill(e); }
        }
        direct(s, from, to, "after destroying the output stream");
    }
    void run(const std::vector<sim::Op>& ops)
    {
        next = 1 + (u64)t * 100000000;
        for (size_t k = 0; k < ops.size(); ++k) {
            const sim::Op& o = ops[k];
            if (o.code == SLEEP) { sim::sleep_us((u64)o.a[1] * 10); continue; }
            if (o.code == OSTREAM || seqs.empty()) {
                seqs.push_back(Seq()); alloc(seqs.back(), (size_t)(1 + o.a[1] % 14), o.a[2]);
                out(seqs.back(), 0, seqs.back().b.size(), 1 + o.a[3] % 7, o.a[4]);
                if (seqs.size() > 4) { stxxl::block_manager::get_instance()->delete_blocks(seqs[0].b.begin(), seqs[0].b.end()); seqs.erase(seqs.begin()); }
                continue;
            }
            Seq& s = seqs[(size_t)o.a[1] % seqs.size()];
            size_t n = s.b.size(), from = (size_t)o.a[2] % n, to = from + 1 + (size_t)(o.a[3] / 8) % (n - from);
            long nbuf = 1 + o.a[3] % 8;
            u64 cnt = (to - from) * EPB;
            switch (o.code) {
            case OSTREAM2: out(s, from, to, nbuf, o.a[4]); break;
            case ISTREAM: {
                stxxl::buf_istream<block, std::vector<bid>::iterator> is(s.b.begin() + (long)from, s.b.begin() + (long)to, (stxxl::unsigned_type)nbuf);
                u64 stop = o.a[4] % 4 == 0 ? (u64)o.a[4] % cnt : cnt;
                for (u64 i = 0; i < stop; ++i) {
                    E e; u64 x = s.v[from * EPB + i];
                    if (o.a[4] % 2) { e = *is; SIM_CHECK(is.current().v == e.v, "stream-content", "current() differs from operator*"); ++is; } else is >> e;
                    SIM_CHECK(e.v == x, "stream-content", "input stream element %llu of %llu is %llu, expected %llu", i, cnt, e.v, x);
                }
                break;
            }
            case RSTREAM: {
                stxxl::buf_istream_reverse<block, std::vector<bid>::iterator> is(s.b.begin() + (long)from, s.b.begin() + (long)to, (int)nbuf);
                u64 stop = o.a[4] % 4 == 0 ? (u64)o.a[4] % cnt : cnt;
                for (u64 i = 0; i < stop; ++i) {
                    E e; u64 x = s.v[to * EPB - 1 - i];
                    if (o.a[4] % 2) { e = *is; ++is; } else is >> e;
                    SIM_CHECK(e.v == x, "stream-content", "reverse stream element %llu of %llu is %llu, expected %llu", i, cnt, e.v, x);
                }
                break;
            }
            case BUFWRITER: {
                stxxl::buffered_writer<block>* w = new stxxl::buffered_writer<block>((stxxl::unsigned_type)nbuf, (stxxl::unsigned_type)(o.a[4] % 7));
                block* b = w->get_free_block();
                sim::Rng r((u64)o.a[4] * 977 + (u64)o.a[2]);
                std::vector<size_t> ord; for (size_t i = from; i < to; ++i) ord.push_back(i);
                if (o.a[4] % 3 == 0) for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
                for (size_t q = 0; q < ord.size(); ++q) {
                    put(b, s, ord[q]);
                    block* nb = w->write(b, s.b[ord[q]]);
                    SIM_CHECK(nb != b, "buffer-reused", "buffered writer returned the buffer it was just given");
                    b = nb;
                    if (r.chance(1, 8)) { w->flush(); for (size_t z = 0; z <= q; ++z) direct(s, ord[z], ord[z] + 1, "after flushing the buffered writer"); b = w->get_free_block(); }
                }
                delete w;
                direct(s, from, to, "after destroying the buffered writer");
                break;
            }
            case PREFETCH: {
                size_t len = to - from;
                std::vector<stxxl::int_type> ps(len);
                long nb = nbuf;
                if (o.a[4] % 3 == 0) for (size_t i = 0; i < len; ++i) ps[i] = (stxxl::int_type)i;
                else stxxl::compute_prefetch_schedule(s.b.begin() + (long)from, s.b.begin() + (long)to, &ps[0], nb, (stxxl::int_type)stxxl::config::get_instance()->get_max_device_id());
                std::vector<char> seen(len, 0);
                for (size_t i = 0; i < len; ++i) { SIM_CHECK(ps[i] >= 0 && (size_t)ps[i] < len && !seen[(size_t)ps[i]], "bad-schedule", "prefetch schedule is not a permutation"); seen[(size_t)ps[i]] = 1; }
                int fetched = 0;
                {
                    CountHandler h; h.n = &fetched;
                    stxxl::block_prefetcher<block, std::vector<bid>::iterator> pf(s.b.begin() + (long)from, s.b.begin() + (long)to, &ps[0], (stxxl::int_type)nb, h);
                    block* b = pf.pull_block(); bool more = true; size_t i = 0;
                    size_t stop = o.a[4] % 5 == 0 ? (size_t)o.a[4] % len : len;
                    for ( ; more && i < stop; ++i) {
                        SIM_CHECK(pf.pos() == i + 1, "prefetch-pos", "position is %zu after %zu blocks", (size_t)pf.pos(), i + 1);
                        for (int e = 0; e < EPB; ++e)
                            SIM_CHECK(b->elem[e].v == s.v[(from + i) * EPB + e], "prefetch-content", "prefetched block %zu element %d is %llu, expected %llu", i, e, b->elem[e].v, s.v[(from + i) * EPB + e]);
                        SIM_CHECK(pf.empty() == (i + 1 == len), "prefetch-empty", "empty() is wrong after %zu of %zu blocks", i + 1, len);
                        more = pf.block_consumed(b);
                        SIM_CHECK(more == (i + 1 < len), "prefetch-end", "block_consumed returned %d after %zu of %zu blocks", (int)more, i + 1, len);
                    }
                }
                SIM_CHECK(fetched <= (int)len, "prefetch-handler", "completion handler ran %d times for %zu blocks", fetched, len);
                break;
            }
            }
        }
        for (size_t i = 0; i < seqs.size(); ++i) { direct(seqs[i], 0, seqs[i].b.size(), "at the end"); stxxl::block_manager::get_instance()->delete_blocks(seqs[i].b.begin(), seqs[i].b.end()); }
    }
};

struct H : sim::Harness
{
    const char* name() { return "streams"; }
    std::string describe(const sim::Op& o)
    {
        char b[120]; snprintf(b, sizeof b, "thread %ld: %s (%ld %ld %ld %ld)", o.a[0], o.code < NOPS ? opn[o.code] : "?", o.a[1], o.a[2], o.a[3], o.a[4]); return b;
    }
    void generate(sim::Rng& r, sim::Case& c, bool thorough)
    {
        sim::gen_schedule(r, c, r.chance(1, 2));
        DiskGen g; g.maxd = 4; gen_disks(r, c, g); gen_env_faults(r, c);
        long T = r.pick({ 1L, 1L, 2L }); c.set("T", T);
        long n = r.range(2, thorough ? 30 : 12);
        for (long i = 0; i < n; ++i)
            c.ops.push_back(sim::Op((int)r.pick({ (long)OSTREAM, (long)OSTREAM, (long)OSTREAM2, (long)ISTREAM, (long)ISTREAM, (long)RSTREAM, (long)RSTREAM, (long)BUFWRITER, (long)BUFWRITER, (long)PREFETCH, (long)PREFETCH, (long)SLEEP }),
                                    r.range(0, T - 1), (long)r.below(1000), (long)r.below(1000), (long)r.below(1000), (long)r.below(1000)));
        c.set("s.limit", 60000);
    }
    void run(const sim::Case& c)
    {
        sim::faults_on(false);
        setup_disks(c);
        long T = c.get("T", 1);
        std::vector<std::vector<sim::Op> > ops((size_t)T); std::vector<Thr> th((size_t)T);
        for (size_t i = 0; i < c.ops.size(); ++i) ops[(size_t)(c.ops[i].a[0] % T)].push_back(c.ops[i]);
        sim::faults_on(true);
        std::vector<int> ids;
        for (long t = 1; t < T; ++t) { Thr* p = &th[(size_t)t]; p->t = (int)t; std::vector<sim::Op>* q = &ops[(size_t)t]; ids.push_back(sim::spawn([p, q]() { p->run(*q); }, "client")); }
        th[0].t = 0; th[0].run(ops[0]);
        for (size_t i = 0; i < ids.size(); ++i) sim::join(ids[i]);
        sim::faults_on(false);
        SIM_CHECK(stxxl::block_manager::get_instance()->get_current_allocation() == 0, "external-leak", "external memory left allocated");
    }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
