// I/O layer harness: client threads submit asynchronous transfers to several files on several backends and
// queues; oracles: completion exactly once, cancellation, content, error attribution, statistics.
// MODE: 1 completion, 2 cancellation, 3 content, 4 partial transfers, 5 errors, 6 wait_any/poll_any, 7 statistics
#include "common.h"
#include <stxxl/bits/io/disk_queues.h>
#include <stxxl/bits/io/request_operations.h>
#include <stxxl/bits/io/iostats.h>
#include <stxxl/bits/io/create_file.h>
#include <stxxl/bits/mng/config.h>
#include <stxxl/bits/io/wbtl_file.h>
#include <stxxl/bits/io/syscall_file.h>
#include <iostream>

#ifndef MODE
#define MODE 1
#endif

using namespace chk;
using stxxl::request_ptr;

namespace {
enum { WRITE, READ, WAIT, POLL, POLLWAIT, WAITANY, WAITALL, CANCEL, XCANCEL, CANCEL2, DROP, SLEEP, XWAIT, PRIO, SIZE, GROW, POLLANY, DISCARD, NOPS };
const char* opn[] = { "write", "read", "wait", "poll", "poll-until-done", "wait_any", "wait_all", "cancel", "cancel-while-waiting", "cancel-twice", "drop-handle", "sleep", "wait-from-two-threads", "set_priority", "size", "grow", "poll_any", "discard" };
const u64 UNKNOWN = ~0ull;
const size_t U = 4096;
enum { SYSCALL, MMAP, AIO, MEM, FPBS, FPBM, WBTL, SIMD, NTYPE };
const char* tname[] = { "syscall", "mmap", "linuxaio", "memory", "fileperblock_syscall", "fileperblock_mmap", "wbtl", "simdisk" };

struct HState { int count; bool closed, cancelled; void* buf; };
const int MAXH = 4096;
HState hs[MAXH]; int nhs;

struct FileS
{
    stxxl::file* f; int type; bool tight; int ku, nblk; u64 base, cap; std::string path;
    std::vector<u64> tag; // per unit
    bool flat() const { return type == SYSCALL || type == MMAP || type == AIO || type == SIMD; }
    bool per_block() const { return type == FPBS || type == FPBM; }
    bool whole() const { return per_block() || type == WBTL; } // no access to parts of a block
};
std::vector<FileS> F;
u64 next_tag;
bool faults_cfg, use_err;
unsigned long st_reads, st_writes, st_rvol, st_wvol;

struct H
{
    int id;
    void operator () (stxxl::request*)
    {
        HState& h = hs[id];
        if (h.closed) sim::violation(h.cancelled ? "handler-after-cancel" : "handler-late", "completion handler of request %d runs after the request was reported finished", id);
        if (++h.count > 1) sim::violation("handler-twice", "completion handler of request %d ran %d times", id, h.count);
        sim::note("handler %d", id);
    }
};

struct Slot
{
    request_ptr r; bool write; int f, blk, u0, un; u64 off; size_t bytes; char* buf; u64 tag; int h; u64 since;
};

struct Client
{
    int t, T; std::vector<Slot> p; std::vector<sim::Op> ops;

    u64 upos(const Slot& s) const { return (u64)s.blk * F[s.f].ku + s.u0; }

    int errs(const Slot& s)
    {
        FileS& f = F[s.f];
        if (f.per_block()) {
            char n[200]; snprintf(n, sizeof n, "%s_fpb_%020llu", f.path.c_str(), s.off);
            return sim::vfs_io_errors(n, 0, s.bytes, s.write, s.since);
        }
        return sim::vfs_io_errors(f.path.c_str(), s.off, s.bytes, s.write, s.since);
    }
    void finish(Slot& s, int err, bool cancelled, bool dropped = false)
    {
        // err: 0 ok, 1 io_error thrown, -1 not known (handle dropped)
        FileS& f = F[s.f];
        HState& h = hs[s.h];
        const char* kind = s.write ? "write" : "read";
        if (cancelled) {
            SIM_CHECK(h.count == 0, "handler-on-cancelled", "%s request %d was cancelled successfully but its handler ran", kind, s.h);
        }
        else {
            SIM_CHECK(h.count == 1, "handler-missing", "%s request %d reported finished with %d handler calls", kind, s.h, h.count);
        }
        h.closed = true; h.cancelled = cancelled;
        int e = errs(s);
        if (cancelled) {
            SIM_CHECK(err <= 0, "error-on-cancelled", "cancelled request %d reports an I/O error", s.h);
        }
        else if (err >= 0) {
            SIM_CHECK(!(e > 0 && err == 0), "lost-error", "%s of %s [%llu,+%zu) failed on the device (%d errors) but the request completed without an error", kind, tname[f.type], s.off, s.bytes, e);
            SIM_CHECK(!(e == 0 && err == 1) || (f.tight && s.write), "phantom-error", "%s of %s [%llu,+%zu) raised io_error although the device reported no error for it", kind, tname[f.type], s.off, s.bytes);
        }
        bool bad = e > 0 || err == 1;
        if (bad && !cancelled) sim::probe("request-with-error");
        u64 p = upos(s);
        if (s.write) {
            for (int i = 0; i < s.un; ++i)
                SIM_CHECK(check(s.buf + i * U, U, s.tag + i) < 0, "write-buffer-changed", "buffer of write request %d was modified", s.h);
            if (!cancelled) for (int i = 0; i < s.un; ++i) f.tag[p + i] = bad ? UNKNOWN : s.tag + i;
            if (!cancelled) { sim::NoPreempt np; st_writes++; st_wvol += s.bytes; }
        } else {
            if (cancelled) {
                for (size_t i = 0; i < s.bytes; ++i)
                    SIM_CHECK((unsigned char)s.buf[i] == 0xA5, "cancelled-read-touched-buffer", "cancelled read request %d modified its buffer", s.h);
            }
            else if (!bad)
                for (int i = 0; i < s.un; ++i) {
                    if (f.tag[p + i] == UNKNOWN) continue;
                    long w = check(s.buf + i * U, U, f.tag[p + i]);
                    SIM_CHECK(w < 0, "stale-or-torn-read", "read of %s unit %llu (offset %llu) word %ld: got %llx, expected version %llx", tname[f.type], p + i, s.off + i * U, w, ((u64*)(s.buf + i * U))[w], f.tag[p + i]);
                }
            if (!cancelled) { sim::NoPreempt np; st_reads++; st_rvol += s.bytes; }
        }
        sim::note("finish %d err=%d cancelled=%d", s.h, err, cancelled);
        s.r = request_ptr();
        afree(s.buf); s.buf = NULL;
        (void)dropped;
    }
    int wait(request_ptr& r)
    {
        try { r->wait(); }
        catch (stxxl::io_error&) { return 1; }
        return 0;
    }
    void remove(size_t i) { p.erase(p.begin() + (long)i); }
    void complete(size_t i) { int e = wait(p[i].r); finish(p[i], e, false); remove(i); }
    void free_block(int f, int b) { for (size_t i = 0; i < p.size(); ) if (p[i].f == f && p[i].blk == b) complete(i); else ++i; }

    void submit(const sim::Op& o, bool wr)
    {
        int fi = (int)(o.a[1] % (long)F.size());
        FileS& f = F[fi];
        int own = (f.nblk - t + T - 1) / T;
        if (own <= 0) return;
        Slot s;
        s.f = fi; s.blk = t + T * (int)(o.a[2] % own);
        free_block(fi, s.blk);
        while (p.size() >= 8) complete(0);
        s.u0 = 0; s.un = f.ku;
        if (!f.whole() && f.ku > 1) { if (o.a[3] % 4 == 1) s.un = f.ku / 2; else if (o.a[3] % 4 == 2) { s.u0 = f.ku / 2; s.un = f.ku - s.u0; } }
        s.write = wr; s.off = f.base + ((u64)s.blk * f.ku + s.u0) * U; s.bytes = (size_t)s.un * U;
        s.buf = (char*)abuf(s.bytes);
        if (nhs >= MAXH) return;
        { sim::NoPreempt np; s.h = nhs++; s.tag = next_tag; next_tag += 64; }
        if (wr) for (int i = 0; i < s.un; ++i) fill(s.buf + i * U, U, s.tag + i);
        else memset(s.buf, 0xA5, s.bytes);
        H h; h.id = s.h;
        s.since = sim::seq();
        sim::note("submit %d %s %s off=%llu len=%zu", s.h, wr ? "write" : "read", tname[f.type], s.off, s.bytes);
        s.r = wr ? f.f->awrite(s.buf, s.off, s.bytes, h) : f.f->aread(s.buf, s.off, s.bytes, h);
        p.push_back(s);
    }
    void polled(Slot& s) { try { if (s.r->poll()) SIM_CHECK(hs[s.h].count == 1, "handler-after-poll", "poll() reported request %d finished but its handler has run %d times", s.h, hs[s.h].count); } catch (stxxl::io_error&) { } }
    bool poll(request_ptr& r) { try { return r->poll(); } catch (stxxl::io_error&) { return true; } }

    void run()
    {
        for (size_t k = 0; k < ops.size(); ++k) {
            const sim::Op& o = ops[k];
            size_t i = p.empty() ? 0 : (size_t)o.a[2] % p.size();
            switch (o.code) {
            case WRITE: submit(o, true); break;
            case READ: submit(o, false); break;
            case WAIT: if (!p.empty()) complete(i); break;
            case POLL: if (!p.empty() && poll(p[i].r)) { sim::probe("poll-true"); polled(p[i]); complete(i); } break;
            case POLLWAIT: if (!p.empty()) { for (u64 w = 1; !poll(p[i].r); w = w < 5000 ? w * 2 : w) sim::sleep_us(w); polled(p[i]); complete(i); } break;
            case WAITANY:
                if (!p.empty()) {
                    std::vector<request_ptr> v; for (size_t q = 0; q < p.size(); ++q) v.push_back(p[q].r);
                    bool thrown = false; size_t res = v.size();
                    try { res = (size_t)(stxxl::wait_any(v.begin(), v.end()) - v.begin()); }
                    catch (stxxl::io_error&) { thrown = true; }
                    if (thrown) {
                        int any = 0;
                        while (!p.empty()) { int e = wait(p[0].r); any += e; finish(p[0], e, false); remove(0); }
                        SIM_CHECK(any > 0, "phantom-error", "wait_any raised io_error although none of its requests failed");
                        break;
                    }
                    SIM_CHECK(res < v.size(), "wait-any-none", "wait_any over %zu requests returned although none of them is finished", v.size());
                    SIM_CHECK(poll(v[res]), "wait-any-unfinished", "wait_any returned a request that is not finished");
                    v.clear();
                    complete(res);
                }
                break;
            case POLLANY:
                if (!p.empty()) {
                    std::vector<request_ptr> v; for (size_t q = 0; q < p.size(); ++q) v.push_back(p[q].r);
                    size_t idx = 0; bool ok = false, thrown = false;
                    try { ok = stxxl::poll_any(&v[0], v.size(), idx); } catch (stxxl::io_error&) { thrown = true; }
                    if (thrown) break;
                    SIM_CHECK(ok == (idx < v.size()), "poll-any-index", "poll_any result %d with index %zu of %zu", (int)ok, idx, v.size());
                    v.clear();
                    if (ok) { sim::probe("poll-any-true"); complete(idx); }
                }
                break;
            case WAITALL: {
                std::vector<request_ptr> v; for (size_t q = 0; q < p.size(); ++q) v.push_back(p[q].r);
                bool thrown = false;
                try { stxxl::wait_all(v.begin(), v.end()); } catch (stxxl::io_error&) { thrown = true; }
                if (!thrown) for (size_t q = 0; q < p.size(); ++q) SIM_CHECK(hs[p[q].h].count == 1, "handler-missing", "wait_all returned before the handler of request %d ran", p[q].h);
                v.clear();
                int any = 0;
                while (!p.empty()) { int e = wait(p[0].r); any += e; finish(p[0], e, false); remove(0); }
                SIM_CHECK(thrown == (any > 0), any ? "lost-error" : "phantom-error", "wait_all %s although %d of its requests failed", thrown ? "raised io_error" : "returned normally", any);
                break;
            }
            case CANCEL: case CANCEL2:
                if (!p.empty()) {
                    bool c = p[i].r->cancel(), c2 = false;
                    if (o.code == CANCEL2) c2 = p[i].r->cancel();
                    SIM_CHECK(!(c && c2), "cancelled-twice", "cancel() succeeded twice for request %d", p[i].h);
                    sim::probe(c ? "cancel-ok" : "cancel-late");
                    int e = wait(p[i].r);
                    finish(p[i], e, c || c2); remove(i);
                }
                break;
            case XCANCEL:
                if (!p.empty()) {
                    request_ptr r = p[i].r; bool c = false, c2 = false;
                    int id; { request_ptr* rp = &r; bool* cp = &c; id = sim::spawn([rp, cp]() { *cp = (*rp)->cancel(); }, "canceller"); }
                    if (o.a[3] % 3 == 0) c2 = p[i].r->cancel();
                    int e = wait(p[i].r);
                    sim::join(id);
                    r = request_ptr();
                    SIM_CHECK(!(c && c2), "cancelled-twice", "cancel() succeeded twice for request %d", p[i].h);
                    sim::probe(c || c2 ? "xcancel-ok" : "xcancel-late");
                    finish(p[i], e, c || c2); remove(i);
                }
                break;
            case DROP:
                if (!p.empty()) {
                    p[i].r = request_ptr();
                    for (u64 w = 1; !*(volatile int*)&hs[p[i].h].count; w = w < 5000 ? w * 2 : w) sim::sleep_us(w);
                    finish(p[i], -1, false, true); remove(i);
                }
                break;
            case SLEEP: sim::sleep_us((u64)(o.a[2] % 2000)); break;
            case XWAIT:
                if (!p.empty()) {
                    request_ptr r = p[i].r; int e2 = 0;
                    request_ptr* rp = &r; int* ep = &e2; Client* me = this;
                    int id = sim::spawn([rp, ep, me]() { *ep = me->wait(*rp); }, "second waiter");
                    int e = wait(p[i].r);
                    sim::join(id);
                    SIM_CHECK(e == e2, "waiters-disagree", "two waiters of request %d disagree about its outcome", p[i].h);
                    r = request_ptr();
                    finish(p[i], e, false); remove(i);
                }
                break;
            case PRIO: stxxl::disk_queues::get_instance()->set_priority_op(o.a[2] % 3 == 0 ? stxxl::request_queue::READ : o.a[2] % 3 == 1 ? stxxl::request_queue::WRITE : stxxl::request_queue::NONE); break;
            case SIZE: {
                if (t) break; // the client that also grows files
                FileS& f = F[(size_t)o.a[1] % F.size()];
                if (f.flat() || f.type == MEM) { u64 z = f.f->size(); SIM_CHECK(z == f.cap, "file-size", "size() of %s is %llu, expected %llu", tname[f.type], z, f.cap); }
                break;
            }
            case GROW: {
                if (t) break;
                FileS& f = F[(size_t)o.a[1] % F.size()];
                if (!f.flat()) break;
                u64 n = f.cap + (u64)(1 + o.a[2] % 5) * U;
                f.f->set_size(n); f.cap = n;
                break;
            }
            case DISCARD: { // the contents of the block are not defined afterwards
                int fi = (int)(o.a[1] % (long)F.size()); FileS& f = F[(size_t)fi];
                int own = (f.nblk - t + T - 1) / T;
                if (own <= 0) break;
                int b = t + T * (int)(o.a[2] % own);
                free_block(fi, b);
                f.f->discard(f.base + (u64)b * f.ku * U, (u64)f.ku * U);
                for (int u = 0; u < f.ku; ++u) f.tag[(size_t)b * f.ku + u] = UNKNOWN;
                break;
            }
            }
        }
        while (!p.empty()) complete(0);
    }
};

struct IoHarness : sim::Harness
{
    const char* name() { return "io"; }
    std::string describe(const sim::Op& o)
    {
        char b[160];
        snprintf(b, sizeof b, "client %ld: %s file %ld sel %ld arg %ld", o.a[0], o.code < NOPS ? opn[o.code] : "?", o.a[1], o.a[2], o.a[3]);
        return b;
    }
    void generate(sim::Rng& r, sim::Case& c, bool thorough)
    {
        sim::gen_schedule(r, c, true);
        long T = MODE == 2 ? r.range(1, 3) : r.range(1, 4), nf = r.range(1, 3);
        c.set("T", T); c.set("nf", nf);
        c.set("qshare", r.range(0, 2)); c.set("aioq", r.pick({ 0L, 1L, 2L, 4L }));
        c.set("prio0", r.range(0, 3));
        for (long i = 0; i < nf; ++i) {
            char k[16];
            long ty = r.pick({ (long)SYSCALL, (long)SYSCALL, (long)AIO, (long)AIO, (long)MMAP, (long)MEM, (long)FPBS, (long)FPBM });
            if ((MODE == 1 || MODE == 2 || MODE == 3 || MODE == 6) && r.chance(1, 4)) ty = r.pick({ (long)WBTL, (long)WBTL, (long)SIMD });
            if (MODE == 4) ty = r.pick({ (long)SYSCALL, (long)SYSCALL, (long)FPBS, (long)WBTL });
            if (MODE == 5) ty = r.pick({ (long)SYSCALL, (long)SYSCALL, (long)AIO, (long)AIO, (long)MMAP, (long)FPBS, (long)SIMD });
            snprintf(k, sizeof k, "f%ld.type", i); c.set(k, ty);
            snprintf(k, sizeof k, "f%ld.ku", i); c.set(k, r.pick({ 1L, 1L, 2L, 4L }));
            bool big = MODE == 3 && ty == WBTL && r.chance(1, 60); // as created by create_file, with its large write buffers
            if (big) c.set(k, 2048);
            snprintf(k, sizeof k, "f%ld.nblk", i); c.set(k, big ? T + 4 : r.range(T, T * 3));
            snprintf(k, sizeof k, "f%ld.hi", i); c.set(k, r.chance(1, 4) ? r.range(1, 3) : 0);
            snprintf(k, sizeof k, "f%ld.dir", i); c.set(k, r.range(0, 2));
            snprintf(k, sizeof k, "f%ld.eof", i); c.set(k, r.range(0, 2));
            snprintf(k, sizeof k, "f%ld.wb", i); c.set(k, r.range(0, 5));
            snprintf(k, sizeof k, "f%ld.tight", i); c.set(k, MODE == 3 && r.chance(1, 4) ? r.range(1, 3) : 0);
        }
        c.set("d.noodirect", r.chance(1, 5)); c.set("d.aiomax", r.pick({ 0L, 1L, 8L, 32L }));
        if (r.chance(1, 2)) sim::gen_fault(c, sim::F_SPURIOUS, r.pick({ 100L, 1000L, 4000L }));
        if (r.chance(1, 3)) sim::gen_fault(c, sim::F_STALL, r.pick({ 50L, 500L }));
        if (MODE != 7 && r.chance(1, 4)) sim::gen_fault(c, sim::F_CLOCK_JUMP, 300);
        if (r.chance(1, 2)) { sim::gen_fault(c, sim::F_AIO_SUBMIT_EAGAIN, r.pick({ 300L, 2000L })); sim::gen_fault(c, sim::F_EINTR_AIO, r.pick({ 0L, 500L, 3000L })); }
        if (MODE == 4) { sim::gen_fault(c, sim::F_SHORT_READ, r.pick({ 500L, 3000L, 7000L })); sim::gen_fault(c, sim::F_SHORT_WRITE, r.pick({ 500L, 3000L, 7000L })); }
        else if (r.chance(1, 4)) { sim::gen_fault(c, sim::F_SHORT_READ, 1500); sim::gen_fault(c, sim::F_SHORT_WRITE, 1500); }
        if (MODE == 5) {
            if (r.chance(2, 3)) sim::gen_fault(c, sim::F_EIO_READ, r.pick({ 200L, 1000L, 3000L }));
            if (r.chance(2, 3)) sim::gen_fault(c, sim::F_EIO_WRITE, r.pick({ 200L, 1000L, 3000L }));
            if (r.chance(1, 3)) sim::gen_fault(c, sim::F_ENOSPC, r.pick({ 200L, 1000L }));
            if (r.chance(1, 3)) sim::gen_fault(c, sim::F_EINTR, r.pick({ 200L, 1000L }));
            if (r.chance(1, 3)) sim::gen_fault(c, sim::F_MMAP_FAIL, r.pick({ 500L, 2000L }));
            if (r.chance(1, 3)) sim::gen_fault(c, sim::F_AIO_SUBMIT_ERR, r.pick({ 300L, 1500L }));
            if (r.chance(1, 2)) sim::gen_fault(c, sim::F_AIO_SHORT, r.pick({ 300L, 1500L }));
        }
        long nops = r.range(4, thorough ? 90 : 45);
        for (long i = 0; i < nops; ++i) {
            long w;
            switch (MODE) {
            case 2: w = r.pick({ 0L, 0L, 0L, 1L, 1L, (long)CANCEL, (long)CANCEL, (long)XCANCEL, (long)XCANCEL, (long)CANCEL2, (long)WAIT, (long)POLL, (long)SLEEP }); break;
            case 6: w = r.pick({ 0L, 0L, 0L, 1L, 1L, 1L, (long)WAITANY, (long)WAITANY, (long)WAITANY, (long)POLLANY, (long)WAIT, (long)SLEEP, (long)WAITALL }); break;
            case 3: case 4: w = r.pick({ 0L, 0L, 0L, 0L, 1L, 1L, 1L, (long)WAIT, (long)WAIT, (long)POLL, (long)WAITALL, (long)SLEEP, (long)GROW, (long)SIZE, (long)CANCEL, (long)PRIO, (long)DISCARD }); break;
            case 7: w = r.pick({ 0L, 0L, 0L, 1L, 1L, 1L, (long)WAIT, (long)CANCEL, (long)XCANCEL, (long)WAITANY, (long)WAITALL, (long)SLEEP, (long)POLLWAIT }); break;
            case 5: w = r.pick({ 0L, 0L, 0L, 1L, 1L, 1L, (long)WAIT, (long)WAIT, (long)WAITANY, (long)WAITALL, (long)POLLWAIT, (long)XWAIT, (long)CANCEL, (long)POLL }); break;
            default: w = r.pick({ 0L, 0L, 0L, 0L, 1L, 1L, 1L, (long)WAIT, (long)POLL, (long)POLLWAIT, (long)WAITANY, (long)WAITALL, (long)SLEEP, (long)XWAIT, (long)PRIO, (long)CANCEL, (long)XCANCEL, (long)DISCARD });
            }
            c.ops.push_back(sim::Op((int)w, r.range(0, T - 1), r.range(0, nf - 1), (long)r.below(1000), (long)r.below(1000)));
        }
        c.set("s.limit", 60000);
    }

    void run(const sim::Case& c)
    {
        quiet_logs();
        std::cout.rdbuf(NULL); // simdisk_file reports its geometry
        sim::faults_on(false);
        long T = c.get("T", 1), nf = c.get("nf", 1);
        nhs = 0; next_tag = 1000;
        stxxl::config::get_instance();
        int share = (int)c.get("qshare");
        for (long i = 0; i < nf; ++i) {
            char k[16]; FileS f;
            snprintf(k, sizeof k, "f%ld.type", i); f.type = (int)c.get(k); f.tight = false;
            snprintf(k, sizeof k, "f%ld.ku", i); f.ku = (int)c.get(k, 1);
            snprintf(k, sizeof k, "f%ld.nblk", i); f.nblk = (int)c.get(k, 1);
            snprintf(k, sizeof k, "f%ld.hi", i); long hi = c.get(k); f.base = 0;
            if (hi && f.type != MEM && f.type != WBTL) f.base = hi == 1 ? (4ull << 30) - U : hi == 2 ? (2ull << 30) - U : (5ull << 30);
            if (f.per_block()) f.base = f.base / U * U;
            snprintf(k, sizeof k, "f%ld.dir", i); long dir = c.get(k);
            snprintf(k, sizeof k, "f%ld.eof", i); long eof = c.get(k);
            char pth[64]; snprintf(pth, sizeof pth, "/sim/d%ld", i); f.path = pth;
            stxxl::disk_config dc(pth, 0, tname[f.type]);
            dc.queue = share == 0 ? stxxl::file::DEFAULT_QUEUE : share == 1 ? 0 : (int)(i % 2);
            dc.queue_length = (int)c.get("aioq");
            dc.direct = dir == 0 ? stxxl::disk_config::DIRECT_OFF : dir == 1 ? stxxl::disk_config::DIRECT_TRY : (c.get("d.noodirect") || f.type == MEM || f.type == WBTL ? stxxl::disk_config::DIRECT_TRY : stxxl::disk_config::DIRECT_ON);
            snprintf(k, sizeof k, "f%ld.wb", i); bool big = f.ku >= 1024; u64 wb = big ? 16 << 20 : (u64)f.ku * U + (u64)c.get(k) * U;
            if (f.type == WBTL && !big) f.f = new stxxl::wbtl_file(new stxxl::syscall_file(f.path, stxxl::file::CREAT | stxxl::file::RDWR, 100), (size_t)wb, 2, dc.queue);
            else f.f = stxxl::create_file(dc, stxxl::file::CREAT | stxxl::file::RDWR, stxxl::file::NO_ALLOCATOR);
            u64 n = (u64)f.ku * (u64)f.nblk;
            f.cap = f.base + n * U;
            f.tag.assign(n, f.type == MEM || f.type == WBTL ? UNKNOWN : 0);
            // flat files may end in the middle of the addressed range: reads beyond get zeroes, writes extend
            (void)eof;
            if (f.type == WBTL) {
                snprintf(k, sizeof k, "f%ld.tight", i); long tight = c.get(k);
                f.tight = tight > 0; // room for blocks in every write unit, or writing may run out of space
                f.f->set_size(f.cap + (tight ? (u64)tight : (u64)f.nblk + 3) * wb);
            }
            else if (!f.per_block()) f.f->set_size(f.cap);
            F.push_back(f);
        }
        stxxl::stats::get_instance();
        stxxl::disk_queues::get_instance();
        if (c.get("prio0")) stxxl::disk_queues::get_instance()->set_priority_op(c.get("prio0") == 1 ? stxxl::request_queue::READ : stxxl::request_queue::WRITE);
        stxxl::stats_data before(*stxxl::stats::get_instance());
        double w0 = (double)sim::now_us();
        st_reads = st_writes = st_rvol = st_wvol = 0;
        std::vector<Client> cl((size_t)T);
        for (long t = 0; t < T; ++t) { cl[(size_t)t].t = (int)t; cl[(size_t)t].T = (int)T; }
        for (size_t i = 0; i < c.ops.size(); ++i) cl[(size_t)(c.ops[i].a[0] % T)].ops.push_back(c.ops[i]);
        sim::faults_on(true);
        std::vector<int> ids;
        for (long t = 1; t < T; ++t) { Client* p = &cl[(size_t)t]; ids.push_back(sim::spawn([p]() { p->run(); }, "client")); }
        cl[0].run();
        for (size_t i = 0; i < ids.size(); ++i) sim::join(ids[i]);
        sim::faults_on(false);
        for (size_t i = 0; i < F.size(); ++i) {
            int spins = 0;
            while (F[i].f->get_request_nref() != 0) { sim::yield(); SIM_CHECK(++spins < 5000, "request-ref-leak", "file %zu is still referenced by %zu requests after all of them finished", i, (size_t)F[i].f->get_request_nref()); }
        }
#if MODE == 7
        {
            stxxl::stats_data d = stxxl::stats_data(*stxxl::stats::get_instance()) - before;
            double el = ((double)sim::now_us() - w0) * 1e-6 + 1e-3;
            SIM_CHECK(d.get_reads() == st_reads, "stats-reads", "statistics report %u reads, %lu were completed", d.get_reads(), st_reads);
            SIM_CHECK(d.get_writes() == st_writes, "stats-writes", "statistics report %u writes, %lu were completed", d.get_writes(), st_writes);
            SIM_CHECK((u64)d.get_read_volume() == st_rvol, "stats-read-volume", "statistics report %lld bytes read, %lu were transferred", (long long)d.get_read_volume(), st_rvol);
            SIM_CHECK((u64)d.get_written_volume() == st_wvol, "stats-write-volume", "statistics report %lld bytes written, %lu were transferred", (long long)d.get_written_volume(), st_wvol);
            double v[] = { d.get_read_time(), d.get_write_time(), d.get_pread_time(), d.get_pwrite_time(), d.get_pio_time(), d.get_io_wait_time(), d.get_wait_read_time(), d.get_wait_write_time() };
            static const char* vn[] = { "read time", "write time", "parallel read time", "parallel write time", "parallel I/O time", "wait time", "wait read time", "wait write time" };
            for (int i = 0; i < 8; ++i) {
                SIM_CHECK(v[i] >= -1e-5, "stats-negative-time", "statistics report a negative %s: %g s", vn[i], v[i]);
                if (i >= 2 && i <= 4) SIM_CHECK(v[i] <= el, "stats-time-exceeds-wall", "%s %g s exceeds the elapsed time %g s", vn[i], v[i], el);
                else SIM_CHECK(v[i] <= el * (double)(st_reads + st_writes + 3 * (unsigned long)T + 1), "stats-time-exceeds-sum", "%s %g s exceeds what the requests and threads can have accumulated in %g s", vn[i], v[i], el);
            }
        }
#endif
        // final verification through fresh requests and directly on the simulated disk
        for (size_t i = 0; i < F.size(); ++i) {
            FileS& f = F[i];
            for (int b = 0; b < f.nblk; ++b) {
                size_t bytes = (size_t)f.ku * U;
                bool any = false; for (int u = 0; u < f.ku; ++u) any |= f.tag[(size_t)(b * f.ku + u)] != UNKNOWN;
                if (!any) continue;
                char* buf = (char*)abuf(bytes); memset(buf, 0x77, bytes);
                u64 off = f.base + (u64)b * bytes;
                f.f->aread(buf, off, bytes)->wait();
                for (int u = 0; u < f.ku; ++u) {
                    u64 tg = f.tag[(size_t)(b * f.ku + u)];
                    if (tg == UNKNOWN) continue;
                    long w = check(buf + u * U, U, tg);
                    SIM_CHECK(w < 0, "final-content", "final content of %s offset %llu word %ld is %llx, expected version %llx", tname[f.type], off + u * U, w, ((u64*)(buf + u * U))[w], tg);
                    if (f.flat()) {
                        char d[U]; memset(d, 0, U); sim::vfs_read(f.path.c_str(), off + u * U, d, U);
                        SIM_CHECK(memcmp(d, buf + u * U, U) == 0, "disk-content", "data on the simulated disk differs from what was read at %llu", off + u * U);
                    }
                }
                afree(buf);
            }
            delete f.f;
        }
        SIM_CHECK(sim::vfs_open_fds() == 0, "fd-leak", "%d file descriptors left open after all files were closed", sim::vfs_open_fds());
        F.clear();
    }
};
IoHarness theh;
} // namespace
sim::Harness* sim::harness() { return &theh; }
