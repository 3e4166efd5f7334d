// Generation and set-up of simulated disks, environment faults and error faults shared by the harnesses above the I/O layer.
#ifndef VERIF_DISKS_H
#define VERIF_DISKS_H
#include "common.h"
#include <stxxl/mng>
#include <stxxl/bits/mng/config.h>
#include <stxxl/bits/io/disk_queues.h>
#include <stxxl/bits/io/iostats.h>
#include <stxxl/random>
#include <stxxl/bits/common/seed.h>

namespace chk {
enum DiskType { D_SYSCALL, D_MMAP, D_AIO, D_MEM, D_FPBS, D_FPBM, D_NTYPE };
static const char* const disk_type_name[] = { "syscall", "mmap", "linuxaio", "memory", "fileperblock_syscall", "fileperblock_mmap" };

inline long cget(const sim::Case& c, const char* pre, long i, const char* k, long d = 0)
{
    char b[40]; snprintf(b, sizeof b, "%s%ld.%s", pre, i, k); return c.get(b, d);
}
inline void cset(sim::Case& c, const char* pre, long i, const char* k, long v)
{
    char b[40]; snprintf(b, sizeof b, "%s%ld.%s", pre, i, k); c.set(b, v);
}

struct DiskGen { long maxd, minkb, maxkb; bool noautogrow, flat_only, nofpb, errors; DiskGen() : maxd(3), minkb(0), maxkb(64), noautogrow(false), flat_only(false), nofpb(false), errors(false) { } };

inline void gen_disks(sim::Rng& r, sim::Case& c, const DiskGen& g)
{
    long nd = r.chance(1, 2) ? 1 : r.range(1, g.maxd);
    c.set("nd", nd); c.set("qshare", r.range(0, 2));
    for (long i = 0; i < nd; ++i) {
        long ty = r.pick({ (long)D_SYSCALL, (long)D_SYSCALL, (long)D_AIO, (long)D_AIO, (long)D_MMAP, (long)D_MEM, (long)D_MEM, (long)D_FPBS, (long)D_FPBM });
        if (g.flat_only) ty = r.pick({ (long)D_SYSCALL, (long)D_AIO, (long)D_MMAP });
        if (g.errors) ty = r.pick({ (long)D_SYSCALL, (long)D_SYSCALL, (long)D_AIO, (long)D_MMAP, (long)D_FPBS });
        if (g.nofpb && ty >= D_FPBS) ty = ty == D_FPBS ? D_SYSCALL : D_MMAP;
        cset(c, "d", i, "type", ty);
        cset(c, "d", i, "kb", r.range(g.minkb / 4, g.maxkb / 4) * 4);
        cset(c, "d", i, "auto", g.noautogrow ? r.range(0, 1) : 1);
        cset(c, "d", i, "aioq", r.pick({ 0L, 1L, 2L, 4L }));
        cset(c, "d", i, "dir", r.range(0, 2));
        cset(c, "d", i, "del", r.range(0, 2));
    }
    c.set("prio0", r.range(0, 3)); c.set("seed", (long)r.below(1u << 30));
    c.set("d.noodirect", r.chance(1, 5)); c.set("d.aiomax", r.pick({ 0L, 1L, 8L, 32L }));
}
// faults of the environment that a correct program must not notice
inline void gen_env_faults(sim::Rng& r, sim::Case& c)
{
    if (r.chance(1, 3)) sim::gen_fault(c, sim::F_SPURIOUS, r.pick({ 100L, 1000L, 4000L }));
    if (r.chance(1, 3)) sim::gen_fault(c, sim::F_STALL, r.pick({ 50L, 500L }));
    if (r.chance(1, 5)) sim::gen_fault(c, sim::F_CLOCK_JUMP, 300);
    if (r.chance(1, 3)) { sim::gen_fault(c, sim::F_AIO_SUBMIT_EAGAIN, r.pick({ 300L, 2000L })); sim::gen_fault(c, sim::F_EINTR_AIO, r.pick({ 0L, 500L, 3000L })); }
    if (r.chance(1, 4)) { sim::gen_fault(c, sim::F_SHORT_READ, r.pick({ 300L, 2000L })); sim::gen_fault(c, sim::F_SHORT_WRITE, r.pick({ 300L, 2000L })); }
}
inline void gen_error_faults(sim::Rng& r, sim::Case& c)
{
    long rate = r.pick({ 10L, 30L, 100L, 400L });
    bool any = false;
    do {
        if (r.chance(1, 2)) { sim::gen_fault(c, sim::F_EIO_READ, rate); any = true; }
        if (r.chance(1, 2)) { sim::gen_fault(c, sim::F_EIO_WRITE, rate); any = true; }
        if (r.chance(1, 4)) { sim::gen_fault(c, sim::F_ENOSPC, rate); any = true; }
        if (r.chance(1, 4)) { sim::gen_fault(c, sim::F_MMAP_FAIL, rate); any = true; }
        if (r.chance(1, 4)) { sim::gen_fault(c, sim::F_AIO_EIO, rate); any = true; }
        if (r.chance(1, 4)) { sim::gen_fault(c, sim::F_AIO_SHORT, rate); any = true; }
        if (r.chance(1, 4)) { sim::gen_fault(c, sim::F_AIO_SUBMIT_ERR, rate); any = true; }
        if (r.chance(1, 4)) { sim::gen_fault(c, sim::F_TRUNC_FAIL, rate); any = true; }
    } while (!any);
}
inline unsigned long error_faults_fired()
{
    return sim::fault_count(sim::F_EIO_READ) + sim::fault_count(sim::F_EIO_WRITE) + sim::fault_count(sim::F_ENOSPC) +
           sim::fault_count(sim::F_MMAP_FAIL) + sim::fault_count(sim::F_AIO_EIO) + sim::fault_count(sim::F_AIO_SHORT) +
           sim::fault_count(sim::F_AIO_SUBMIT_ERR) + sim::fault_count(sim::F_TRUNC_FAIL) + sim::fault_count(sim::F_EINTR) + sim::fault_count(sim::F_OPEN_FAIL);
}

// one disk added to the configuration; call before anything uses the block manager
inline void setup_disks(const sim::Case& c, bool instances = true)
{
    quiet_logs();
    stxxl::set_seed((unsigned)c.get("seed", 1)); stxxl::srandom_number32((unsigned)c.get("seed", 1));
    stxxl::config* cfg = stxxl::config::get_instance();
    long nd = c.get("nd", 1);
    for (long i = 0; i < nd; ++i) {
        char p[64]; snprintf(p, sizeof p, "/sim/disk%ld", i);
        int ty = (int)cget(c, "d", i, "type");
        stxxl::disk_config d(p, (stxxl::uint64)cget(c, "d", i, "kb") * 1024, disk_type_name[ty]);
        d.autogrow = cget(c, "d", i, "auto", 1) != 0;
        long del = cget(c, "d", i, "del");
        d.delete_on_exit = del == 1; d.unlink_on_open = del == 2 && (ty == D_SYSCALL || ty == D_AIO || ty == D_MMAP);
        long dir = cget(c, "d", i, "dir");
        d.direct = dir == 0 ? stxxl::disk_config::DIRECT_OFF : dir == 1 ? stxxl::disk_config::DIRECT_TRY : (c.get("d.noodirect") || ty == D_MEM ? stxxl::disk_config::DIRECT_TRY : stxxl::disk_config::DIRECT_ON);
        long share = c.get("qshare");
        d.queue = share == 0 ? stxxl::file::DEFAULT_QUEUE : share == 1 ? 0 : (int)(i % 2);
        d.queue_length = (int)cget(c, "d", i, "aioq");
        cfg->add_disk(d);
    }
    if (!instances) return;
    stxxl::stats::get_instance();
    stxxl::block_manager::get_instance();
    stxxl::disk_queues::get_instance();
    long prio = c.get("prio0");
    if (prio == 1 || prio == 2) stxxl::disk_queues::get_instance()->set_priority_op(prio == 1 ? stxxl::request_queue::READ : stxxl::request_queue::WRITE);
}
}
#endif
