// Block pools harness: random histories over few blocks through read_write_pool / write_pool / prefetch_pool.
#include "disks.h"
#include <stxxl/bits/mng/read_write_pool.h>
#include <stxxl/bits/mng/typed_block.h>
#include <set>
#ifndef MODE
#define MODE 10
#endif
using namespace chk;
using stxxl::request_ptr;

namespace {
typedef stxxl::typed_block<4096, u64> block;
typedef block::bid_type bid;
typedef stxxl::read_write_pool<block> pool_t;
enum { WRITE, READ, HINT, INVAL, STEALADD, STEALPADD, RESW, RESP, WAITW, SLEEP, SWAP, DIRECT, POLLH, HOLDREAD, PHINT, PREAD, NOPS };
const char* opn[] = { "write", "read", "hint", "invalidate", "steal+add", "steal_prefetch+add", "resize_write", "resize_prefetch", "wait-last-write", "sleep", "swap", "wait+read-from-disk", "poll_hint", "read-later-wait", "prefetch_pool::hint", "prefetch_pool::read" };

struct Ctx
{
    std::vector<bid> bids; std::vector<u64> ver; std::vector<request_ptr> lastw;
    std::set<block*> owned; // by the user
    long nw, np;            // expected pool sizes
    u64 next;

    void own(block* b, const char* from)
    {
        SIM_CHECK(b != NULL, "null-block", "%s returned no block", from);
        SIM_CHECK(owned.insert(b).second, "block-lent-twice", "%s returned a block the user already owns", from);
        fill(b, sizeof(block), 0xDEAD00 + (u64)from[0]); // the owner may scribble over it
    }
};
void verify(const block* b, u64 v, size_t i, const char* how)
{
    long w = check(b, sizeof(block), v);
    SIM_CHECK(w < 0, "pool-content", "%s of block %zu: word %ld is %llx, expected version %llu", how, i, w, ((const u64*)b)[w], v);
}

struct Pools : sim::Harness
{
    const char* name() { return "pools"; }
    std::string describe(const sim::Op& o)
    {
        char b[100]; snprintf(b, sizeof b, "%s block/arg %ld %ld", o.code < NOPS ? opn[o.code] : "?", o.a[0], o.a[1]); return b;
    }
    void generate(sim::Rng& r, sim::Case& c, bool thorough)
    {
        sim::gen_schedule(r, c, true);
        DiskGen g; g.maxd = 2; gen_disks(r, c, g); gen_env_faults(r, c);
        c.set("nb", r.range(1, 6)); c.set("w", r.range(0, 4)); c.set("p", r.range(0, 4)); c.set("sep", r.range(0, 1));
        long n = r.range(5, thorough ? 150 : 60);
        bool few = r.chance(1, 2);
        for (long i = 0; i < n; ++i) {
            long w = few ? r.pick({ (long)WRITE, (long)WRITE, (long)WRITE, (long)HINT, (long)HINT, (long)READ, (long)READ, (long)SLEEP })
                         : r.pick({ (long)WRITE, (long)WRITE, (long)WRITE, (long)READ, (long)READ, (long)HINT, (long)HINT, (long)HINT, (long)INVAL, (long)STEALADD, (long)STEALPADD, (long)RESW, (long)RESP, (long)WAITW, (long)SLEEP, (long)SWAP, (long)DIRECT, (long)POLLH, (long)HOLDREAD, (long)PHINT, (long)PREAD });
            c.ops.push_back(sim::Op((int)w, (long)r.below(100), (long)r.below(100)));
        }
        c.set("s.limit", 40000);
    }
    block* get_block(Ctx& x, pool_t& p)
    {
        if (x.nw > 0) { block* b = p.steal(); x.nw--; x.own(b, "steal"); return b; }
        block* b = new block; x.own(b, "new"); return b;
    }
    void sizes(Ctx& x, pool_t& p)
    {
        SIM_CHECK((long)p.size_write() == x.nw, "write-pool-size", "write pool has %zu blocks, expected %ld", (size_t)p.size_write(), x.nw);
        SIM_CHECK((long)p.size_prefetch() == x.np, "prefetch-pool-size", "prefetch pool has %zu blocks, expected %ld", (size_t)p.size_prefetch(), x.np);
        SIM_CHECK(p.free_size_prefetch() + p.busy_size_prefetch() == p.size_prefetch(), "prefetch-pool-size", "free and busy prefetch blocks do not add up");
    }
    void run(const sim::Case& c)
    {
        sim::faults_on(false);
        setup_disks(c);
        Ctx x; x.next = 100;
        x.bids.resize((size_t)c.get("nb", 1)); x.ver.resize(x.bids.size()); x.lastw.resize(x.bids.size());
        stxxl::block_manager* bm = stxxl::block_manager::get_instance();
        bm->new_blocks(stxxl::striping(), x.bids.begin(), x.bids.end());
        {
            block* b = new block;
            for (size_t i = 0; i < x.bids.size(); ++i) { x.ver[i] = x.next++; fill(b, sizeof(block), x.ver[i]); b->write(x.bids[i])->wait(); }
            delete b;
        }
        x.nw = c.get("w"); x.np = c.get("p");
        sim::faults_on(true);
        bool sep = c.get("sep") != 0;
        stxxl::prefetch_pool<block>* pp = sep ? new stxxl::prefetch_pool<block>((stxxl::unsigned_type)x.np) : NULL;
        stxxl::write_pool<block>* wp = sep ? new stxxl::write_pool<block>((stxxl::unsigned_type)x.nw) : NULL;
        pool_t* p = sep ? new pool_t(*pp, *wp) : new pool_t((stxxl::unsigned_type)x.np, (stxxl::unsigned_type)x.nw);
        for (size_t k = 0; k < c.ops.size(); ++k) {
            const sim::Op& o = c.ops[k];
            size_t i = (size_t)o.a[0] % x.bids.size();
            switch (o.code) {
            case WRITE: {
                block* b = get_block(x, *p), * keep = b;
                u64 v = x.next++;
                fill(b, sizeof(block), v);
                x.lastw[i] = p->write(b, x.bids[i]);
                SIM_CHECK(b == NULL, "block-not-taken", "write left the block with the caller");
                x.owned.erase(keep); x.ver[i] = v; x.nw++;
                break;
            }
            case READ: case HOLDREAD: {
                block* b = get_block(x, *p);
                x.owned.erase(b);
                bool in_w = !p->in_prefetching(x.bids[i]); (void)in_w;
                request_ptr r = p->read(b, x.bids[i]);
                bool dup = x.owned.count(b) != 0;
                SIM_CHECK(!dup && b, "block-lent-twice", "read returned a block the user already owns");
                if (o.code == HOLDREAD) { sim::sleep_us((u64)o.a[1] * 20); }
                r->wait();
                verify(b, x.ver[i], i, "read through the pool");
                x.lastw[i] = request_ptr();
                fill(b, sizeof(block), 0xBAD0000 + k);
                // give it back to the write pool, or free it
                if (o.a[1] % 3) { p->add(b); x.nw++; } else delete b;
                // read() may have exchanged a block: recompute from conservation below
                break;
            }
            case HINT: p->hint(x.bids[i]); break;
            case INVAL: p->invalidate(x.bids[i]); SIM_CHECK(!p->in_prefetching(x.bids[i]), "still-hinted", "block is still hinted after invalidation"); break;
            case STEALADD: if (x.nw > 0) { block* b = p->steal(); x.own(b, "steal"); x.owned.erase(b); p->add(b); SIM_CHECK(!b, "block-not-taken", "add left the block with the caller"); } break;
            case STEALPADD: if (p->free_size_prefetch() > 0) { block* b = p->steal_prefetch(); x.own(b, "steal_prefetch"); x.owned.erase(b); if (o.a[1] % 2) p->add_prefetch(b); else { p->add(b); x.np--; x.nw++; } } break;
            case RESW: x.nw = o.a[1] % 5; p->resize_write((stxxl::unsigned_type)x.nw); break;
            case RESP: { long n = o.a[1] % 5, busy = (long)p->busy_size_prefetch(); p->resize_prefetch((stxxl::unsigned_type)n); x.np = n < busy ? busy : n; break; }
            case WAITW: if (x.lastw[i].valid()) x.lastw[i]->wait(); break;
            case DIRECT:
                if (x.lastw[i].valid()) {
                    x.lastw[i]->wait();
                    block* b = new block; b->read(x.bids[i])->wait(); verify(b, x.ver[i], i, "direct read after waiting for the last write"); delete b;
                    sim::probe("direct-read");
                }
                break;
            case POLLH: {
                bool h = p->in_prefetching(x.bids[i]); bool q = p->poll_hint(x.bids[i]); request_ptr f = p->find_hint(x.bids[i]);
                SIM_CHECK(h == f.valid() && (!q || h), "hint-state", "in_prefetching, find_hint and poll_hint disagree");
                break;
            }
            case PHINT: case PREAD:
                if (!sep) break;
                // without the write pool's help only sound when the block is not being written
                if (wp->has_request(x.bids[i])) { if (x.lastw[i].valid()) x.lastw[i]->wait(); }
                if (o.code == PHINT) pp->hint(x.bids[i]);
                else {
                    block* b = get_block(x, *p);
                    x.owned.erase(b);
                    request_ptr r = pp->read(b, x.bids[i]);
                    r->wait(); verify(b, x.ver[i], i, "read through the prefetch pool");
                    p->add(b); x.nw++;
                }
                break;
            case SLEEP: sim::sleep_us((u64)o.a[1] * 30); break;
            case SWAP: {
                if (sep) break;
                pool_t* q = new pool_t(1, 1); std::swap(*p, *q); std::swap(p, q); // p has the contents again under another address
                delete q; break;
            }
            }
            sizes(x, *p);
        }
        for (size_t i = 0; i < x.lastw.size(); ++i) x.lastw[i] = request_ptr();
        delete p; delete wp; delete pp;
        sim::faults_on(false);
        {
            block* b = new block;
            for (size_t i = 0; i < x.bids.size(); ++i) { b->read(x.bids[i])->wait(); verify(b, x.ver[i], i, "direct read after destroying the pool"); }
            delete b;
        }
        bm->delete_blocks(x.bids.begin(), x.bids.end());
    }
};
Pools theh;
}
sim::Harness* sim::harness() { return &theh; }
