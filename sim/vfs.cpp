// Simulated disk: an in-memory file system below /sim/ with latencies, torn transfers, injected errors,
// POSIX calls and Linux kernel AIO. Everything else is passed to the real kernel.
#include "internal.h"
#include <cstdarg>
#include <fcntl.h>
#include <linux/aio_abi.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>

namespace sim {
namespace {
struct IoErr { int ino; bool write, any; u64 off, len; int err; u64 seq; };
const int MAX_INODE = 768, MAX_FD = 1024, FD_BASE = 100000;
const u64 INODE_SPAN = 1ull << 33;      // 8 GiB address space per file (sparse)
const u64 DUR_OFF = (u64)MAX_INODE * INODE_SPAN;
const u64 PG = 4096;

struct Inode { char name[96]; bool used, linked; u64 size, dsize; int opens; u64 high; u64 bytes; };
struct Shared
{
    Inode ino[MAX_INODE];
    u64 capacity; bool track; int hi; // inodes below hi were ever used
    // dirty pages: bitmap lazily per inode (1 bit per page for first 1 GiB)
    unsigned char dirty[MAX_INODE][(1u << 30) / PG / 8];
    u64 opcount;
};
Shared* V = (Shared*)VFS_BASE;

struct FD { bool used; int ino; int flags; u64 pos; };
FD g_fd[MAX_FD];
io_observer g_obs = NULL;
IoErr g_err[4096]; int g_nerr = 0;
void log_err(int ino, bool wr, bool any, u64 off, u64 len, int err)
{
    if (g_nerr >= 4096) return;
    IoErr& e = g_err[g_nerr++];
    e.ino = ino; e.write = wr; e.any = any; e.off = off; e.len = len; e.err = err; e.seq = seq();
}

inline char* idata(int i) { return (char*)(VFS_DATA + (u64)i * INODE_SPAN); }
inline char* ddata(int i) { return (char*)(VFS_DATA + DUR_OFF + (u64)i * INODE_SPAN); }
inline bool simpath(const char* p) { return p && !strncmp(p, "/sim/", 5); }
inline FD* getfd(int fd) { int i = fd - FD_BASE; return i >= 0 && i < MAX_FD && g_fd[i].used ? &g_fd[i] : NULL; }
inline bool isfd(int fd) { return fd >= FD_BASE && fd < FD_BASE + MAX_FD; }

int lookup(const char* p)
{
    for (int i = 0; i < V->hi; ++i) if (V->ino[i].used && V->ino[i].linked && !strcmp(V->ino[i].name, p)) return i;
    return -1;
}
void zero_range(int i, u64 from, u64 to)
{
    if (to <= from) return;
    // only what was ever touched can be non-zero
    Inode& n = V->ino[i];
    if (to > n.high) to = n.high;
    if (to <= from) return;
    char* a = idata(i) + from, * b = idata(i) + to;
    char* pa = (char*)(((uintptr_t)a + PG - 1) & ~(PG - 1)), * pb = (char*)((uintptr_t)b & ~(PG - 1));
    if (pb > pa && (u64)(pb - pa) > 16 * PG) {
        memset(a, 0, (size_t)(pa - a));
        rsys(SYS_madvise, (long)pa, (long)(pb - pa), MADV_REMOVE);
        memset(pb, 0, (size_t)(b - pb));
    } else memset(a, 0, (size_t)(b - a));
}
int create(const char* p)
{
    for (int i = 0; i < MAX_INODE; ++i)
        if (!V->ino[i].used) {
            Inode& n = V->ino[i]; if (i >= V->hi) V->hi = i + 1;
            u64 oldhigh = n.high;
            memset(&n, 0, sizeof n); n.high = oldhigh;
            n.used = n.linked = true; strncpy(n.name, p, 95);
            zero_range(i, 0, oldhigh); n.high = 0;
            return i;
        }
    return -1;
}
void drop(int i)
{
    Inode& n = V->ino[i];
    if (!n.linked && n.opens == 0) { n.used = false; }
}
u64 used_bytes()
{
    u64 s = 0;
    for (int i = 0; i < V->hi; ++i) if (V->ino[i].used) s += V->ino[i].high;
    return s;
}
void mark_dirty(int i, u64 off, u64 len)
{
    if (!V->track) return;
    for (u64 p = off / PG; p <= (off + len - 1) / PG && p < (1u << 30) / PG; ++p) V->dirty[i][p / 8] |= (unsigned char)(1 << (p % 8));
}
void make_durable(int i, u64 off, u64 len)
{
    if (!V->track || !len) return;
    memcpy(ddata(i) + off, idata(i) + off, len);
    if (V->ino[i].dsize < off + len) V->ino[i].dsize = off + len;
}
// data leaves memory for the device
bool dev_write(int i, u64 off, const void* buf, u64 len, bool sync)
{
    if (!len) return true;
    const char* b = mem_bad(buf, len);
    if (b) { char c[64]; snprintf(c, sizeof c, "io-from-%s-memory", b); violation(c, "device write of %llu bytes at %s:%llu reads %s memory %p", len, V->ino[i].name, off, b, buf); }
    Inode& n = V->ino[i];
    if (off + len > INODE_SPAN) return false;
    memcpy(idata(i) + off, buf, len);
    if (off + len > n.size) n.size = off + len;
    if (off + len > n.high) n.high = off + len;
    if (sync) make_durable(i, off, len); else mark_dirty(i, off, len);
    return true;
}
void dev_read(int i, u64 off, void* buf, u64 len)
{
    if (!len) return;
    const char* b = mem_bad(buf, len);
    if (b) { char c[64]; snprintf(c, sizeof c, "io-into-%s-memory", b); violation(c, "device read of %llu bytes at %s:%llu writes %s memory %p", len, V->ino[i].name, off, b, buf); }
    memcpy(buf, idata(i) + off, len);
}
} // namespace

void vfs_init_shared()
{
    long r = rsys(SYS_mmap, (long)VFS_BASE, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    long q = rsys(SYS_mmap, (long)VFS_DATA, (long)(2 * DUR_OFF), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (r != (long)VFS_BASE || q != (long)VFS_DATA) die_result(ST_INTERNAL, "internal", "vfs map");
}
void vfs_init_phase()
{
    memset(g_fd, 0, sizeof g_fd);
    for (int i = 0; i < V->hi; ++i) if (V->ino[i].used) { V->ino[i].opens = 0; drop(i); }
}
VStat vfs_stat(const char* p)
{
    int i = lookup(p); VStat s = { i >= 0, i >= 0 ? V->ino[i].size : 0 };
    return s;
}
size_t vfs_read(const char* p, u64 off, void* buf, size_t len)
{
    int i = lookup(p);
    if (i < 0 || off >= V->ino[i].size) return 0;
    if (off + len > V->ino[i].size) len = V->ino[i].size - off;
    memcpy(buf, idata(i) + off, len);
    return len;
}
void vfs_poke(const char* p, u64 off, const void* buf, size_t len)
{
    int i = lookup(p);
    if (i < 0) i = create(p);
    Inode& n = V->ino[i];
    memcpy(idata(i) + off, buf, len);
    if (n.size < off + len) n.size = off + len;
    if (n.high < off + len) n.high = off + len;
    make_durable(i, off, len);
}
int vfs_list(std::vector<std::string>& out)
{
    int c = 0;
    for (int i = 0; i < V->hi; ++i) if (V->ino[i].used && V->ino[i].linked) { out.push_back(V->ino[i].name); ++c; }
    return c;
}
int vfs_open_fds() { int c = 0; for (int i = 0; i < MAX_FD; ++i) c += g_fd[i].used; return c; }
void vfs_set_capacity(u64 b) { V->capacity = b; }
void vfs_track_durability(bool on) { V->track = on; }
int vfs_io_errors(const char* path, u64 off, u64 len, bool write, u64 since)
{
    int i = lookup(path), c = 0;
    for (int k = 0; k < g_nerr; ++k) {
        IoErr& e = g_err[k];
        if (e.seq >= since && e.ino == i && (e.any || e.write == write) && e.off < off + len && off < e.off + e.len) ++c;
    }
    return c;
}
void vfs_set_observer(io_observer o) { g_obs = o; }
void vfs_power_loss(u64 rnd)
{
    for (int i = 0; i < MAX_INODE; ++i) {
        Inode& n = V->ino[i];
        if (!n.used) continue;
        u64 pages = (n.high + PG - 1) / PG;
        if (pages > (1u << 30) / PG) pages = (1u << 30) / PG;
        for (u64 p = 0; p < pages; ++p) {
            if (!(V->dirty[i][p / 8] & (1 << (p % 8)))) continue;
            V->dirty[i][p / 8] &= (unsigned char)~(1 << (p % 8));
            u64 h = hash3(rnd, (u64)i, p);
            // each dirty page is written back, lost, or torn at a 512-byte sector boundary
            u64 keep = h % 3 == 0 ? PG : h % 3 == 1 ? 0 : (h >> 8) % 8 * 512;
            memcpy(ddata(i) + p * PG, idata(i) + p * PG, keep);
            if (keep == PG && n.dsize < (p + 1) * PG && n.size >= (p + 1) * PG) n.dsize = (p + 1) * PG;
            memcpy(idata(i) + p * PG, ddata(i) + p * PG, PG);
        }
        u64 h = hash3(rnd, 999, (u64)i);
        if (n.size > n.dsize && h % 2) { zero_range(i, n.dsize, n.size); n.size = n.dsize; }
    }
}

// ---------------------------------------------------------------- AIO
namespace {
struct AioReq { int state; int ctx; struct iocb cb; int ino; bool sync; long res; u64 data, obj; }; // 0 free 1 queued 2 done
struct AioCtx { bool used; int max; int inflight; int done[4096]; int ndone; };
const int MAXAIO = 4096;
AioReq g_aio[MAXAIO];
AioCtx g_ctx[32];

void aio_half(void*, u64 k)
{
    AioReq& a = g_aio[k];
    if (a.state != 1) return;
    u64 n = a.cb.aio_nbytes / 2 / 512 * 512;
    if (a.res >= 0 && (u64)a.res < n) n = (u64)a.res;
    if (a.res <= 0) return;
    if (a.cb.aio_lio_opcode == IOCB_CMD_PWRITE) { dev_write(a.ino, (u64)a.cb.aio_offset, (void*)a.cb.aio_buf, n, a.sync); kill_point(); }
    else dev_read(a.ino, (u64)a.cb.aio_offset, (void*)a.cb.aio_buf, n);
}
void aio_done(void*, u64 k)
{
    AioReq& a = g_aio[k];
    if (a.state != 1) return;
    if (a.cb.aio_lio_opcode == IOCB_CMD_PWRITE) kill_point();
    if (a.res > 0) {
        u64 n = (u64)a.res;
        if (a.cb.aio_lio_opcode == IOCB_CMD_PWRITE) {
            if (V->capacity && used_bytes() + n > V->capacity && (u64)a.cb.aio_offset + n > V->ino[a.ino].high) { a.res = -ENOSPC; n = 0; }
            dev_write(a.ino, (u64)a.cb.aio_offset, (void*)a.cb.aio_buf, n, a.sync);
        } else {
            u64 sz = V->ino[a.ino].size, off = (u64)a.cb.aio_offset;
            if (off >= sz) n = 0; else if (off + n > sz) n = sz - off;
            a.res = (long)n;
            dev_read(a.ino, off, (void*)a.cb.aio_buf, n);
        }
    }
    a.state = 2;
    if (a.res < (long)a.cb.aio_nbytes) {
        u64 sz = V->ino[a.ino].size;
        bool eof = a.cb.aio_lio_opcode == IOCB_CMD_PREAD && a.res >= 0 && (u64)a.cb.aio_offset + (u64)a.res >= sz;
        if (a.res < 0 || !eof) log_err(a.ino, a.cb.aio_lio_opcode == IOCB_CMD_PWRITE, false, (u64)a.cb.aio_offset, a.cb.aio_nbytes, a.res < 0 ? (int)-a.res : 0);
        probe(a.res < 0 ? "aio-error-completion" : eof ? "aio-short-at-eof" : "aio-short-completion");
    }
    AioCtx& c = g_ctx[a.ctx];
    c.done[c.ndone++] = (int)k;
    V->ino[a.ino].opens--; drop(a.ino);
    wake_all(W_AIO, &c);
}

long aio_setup(unsigned nr, aio_context_t* out)
{
    // the kernel grants at most d.aiomax events (0 = any number)
    long lim = g_case ? g_case->get("d.aiomax", 0) : 0;
    if (lim > 0 && (long)nr > lim) { probe("io_setup-eagain"); errno = EAGAIN; return -1; }
    for (int i = 0; i < 32; ++i) if (!g_ctx[i].used) {
        g_ctx[i].used = true; g_ctx[i].max = (int)nr; g_ctx[i].inflight = 0; g_ctx[i].ndone = 0;
        *out = (aio_context_t)(i + 1);
        return 0;
    }
    errno = EAGAIN; return -1;
}
int vfs_aio_contexts_() { int n = 0; for (int i = 0; i < 32; ++i) n += g_ctx[i].used; return n; }
AioCtx* actx(aio_context_t c) { long i = (long)c - 1; return i >= 0 && i < 32 && g_ctx[i].used ? &g_ctx[i] : NULL; }

long aio_submit(aio_context_t cx, long nr, struct iocb** cbs)
{
    sched_point(P_IO);
    AioCtx* c = actx(cx);
    if (!c) { errno = EINVAL; return -1; }
    if (nr < 0) { errno = EINVAL; return -1; }
    long done = 0;
    if (nr > 0 && fault(F_AIO_SUBMIT_EAGAIN)) { errno = EAGAIN; return -1; }
    for (long k = 0; k < nr; ++k) {
        struct iocb* cb = cbs[k];
        if (const char* b = mem_bad(cb, sizeof *cb)) violation("aio-bad-iocb", "io_submit with %s iocb %p", b, (void*)cb);
        if (c->inflight >= c->max) { if (done) return done; errno = EAGAIN; return -1; }
        if (k > 0 && fault(F_AIO_SUBMIT_PARTIAL)) return done;
        FD* f = getfd((int)cb->aio_fildes);
        int err = 0;
        if (!f) err = EBADF;
        else if (cb->aio_lio_opcode != IOCB_CMD_PREAD && cb->aio_lio_opcode != IOCB_CMD_PWRITE) err = EINVAL;
        else if (cb->aio_lio_opcode == IOCB_CMD_PREAD && (f->flags & O_ACCMODE) == O_WRONLY) err = EBADF;
        else if (cb->aio_lio_opcode == IOCB_CMD_PWRITE && (f->flags & O_ACCMODE) == O_RDONLY) err = EBADF;
        else if ((f->flags & O_DIRECT) && ((cb->aio_offset | (long long)cb->aio_nbytes | (long long)cb->aio_buf) & 511)) err = EINVAL;
        if (!err && !done && fault(F_AIO_SUBMIT_ERR)) {
            log_err(f->ino, cb->aio_lio_opcode == IOCB_CMD_PWRITE, false, (u64)cb->aio_offset, cb->aio_nbytes, EIO);
            err = EIO;
        }
        if (err) { if (done) return done; errno = err; return -1; }
        int s = -1;
        for (int i = 0; i < MAXAIO; ++i) if (g_aio[i].state == 0) { s = i; break; }
        if (s < 0) { if (done) return done; errno = EAGAIN; return -1; }
        AioReq& a = g_aio[s];
        a.state = 1; a.ctx = (int)((long)cx - 1); a.cb = *cb; a.ino = f->ino; a.sync = f->flags & O_DSYNC;
        a.data = cb->aio_data; a.obj = (u64)(uintptr_t)cb;
        a.res = (long)cb->aio_nbytes;
        u64 p;
        if (cb->aio_lio_opcode == IOCB_CMD_PWRITE ? fault(F_EIO_WRITE) : fault(F_EIO_READ)) a.res = -EIO;
        else if (fault(F_AIO_EIO)) a.res = -EIO;
        else if (fault(F_AIO_SHORT, &p)) a.res = (long)(p % (cb->aio_nbytes / 512 ? cb->aio_nbytes / 512 : 1) * 512);
        if (cb->aio_lio_opcode == IOCB_CMD_PWRITE && fault(F_ENOSPC)) a.res = -ENOSPC;
        if (a.res > 0) if (const char* b = mem_bad((void*)cb->aio_buf, cb->aio_nbytes)) { char cl[64]; snprintf(cl, sizeof cl, "aio-submit-%s-memory", b); violation(cl, "io_submit on %s buffer", b); }
        V->ino[f->ino].opens++;
        c->inflight++;
        u64 l1 = io_latency(10), l2 = io_latency(11);
        event_at(g_clock + l1, aio_half, NULL, (u64)s);
        event_at(g_clock + l1 + l2, aio_done, NULL, (u64)s);
        V->opcount++;
        loghash(0xA10, (u64)cb->aio_offset);
        trace("io_submit %s %s off=%lld len=%llu", cb->aio_lio_opcode == IOCB_CMD_PWRITE ? "write" : "read", V->ino[f->ino].name, (long long)cb->aio_offset, (unsigned long long)cb->aio_nbytes);
        ++done;
    }
    sched_point(P_IO);
    return done;
}
long aio_getevents(aio_context_t cx, long mn, long nr, struct io_event* ev, struct timespec* to)
{
    sched_point(P_IO);
    AioCtx* c = actx(cx);
    if (!c || mn < 0 || nr < 0 || mn > nr) { errno = EINVAL; return -1; }
    u64 dl = to ? g_clock + (u64)to->tv_sec * 1000000000ull + (u64)to->tv_nsec + 1 : 0;
    while (c->ndone < mn) {
        if (fault(F_EINTR_AIO)) { errno = EINTR; return -1; }
        if (to && g_clock >= dl) break;
        block(W_AIO, c, dl);
        if (!c->used) { errno = EINVAL; return -1; }
    }
    if (fault(F_EINTR_AIO)) { errno = EINTR; return -1; }
    long n = 0;
    while (n < nr && c->ndone > 0) {
        int pick = (int)choose((unsigned)c->ndone); // completion order is arbitrary
        int k = c->done[pick];
        c->done[pick] = c->done[--c->ndone];
        AioReq& a = g_aio[k];
        ev[n].data = a.data; ev[n].obj = a.obj; ev[n].res = a.res; ev[n].res2 = 0;
        a.state = 0; c->inflight--;
        ++n;
        if (n >= mn && n < nr && choose(2)) break; // may return with fewer than nr
    }
    return n;
}
long aio_cancel(aio_context_t cx, struct iocb*, struct io_event*)
{
    sched_point(P_IO);
    if (!actx(cx)) { errno = EINVAL; return -1; }
    errno = EINVAL; // what Linux answers for regular files
    return -1;
}
long aio_destroy(aio_context_t cx)
{
    sched_point(P_IO);
    AioCtx* c = actx(cx);
    if (!c) { errno = EINVAL; return -1; }
    // the kernel waits for everything in flight
    while (c->inflight > c->ndone) block(W_AIO, c);
    for (int i = 0; i < c->ndone; ++i) g_aio[c->done[i]].state = 0;
    c->used = false;
    wake_all(W_AIO, c);
    return 0;
}
} // namespace

int vfs_aio_contexts() { return vfs_aio_contexts_(); }

// ---------------------------------------------------------------- POSIX
static int do_open(const char* path, int flags)
{
    sched_point(P_IO);
    u64 p;
    if ((flags & O_DIRECT) && g_case && g_case->get("d.noodirect", 0)) { errno = EINVAL; return -1; }
    if ((flags & O_DIRECT) && fault(F_ODIRECT_EINVAL)) { errno = EINVAL; return -1; }
    if (fault(F_OPEN_FAIL, &p)) { errno = p % 3 == 0 ? EACCES : p % 3 == 1 ? EMFILE : EIO; return -1; }
    int i = lookup(path);
    if (i < 0) {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        i = create(path);
        if (i < 0) { errno = ENOSPC; return -1; }
    }
    else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    if (flags & O_TRUNC) { zero_range(i, 0, V->ino[i].size); V->ino[i].size = 0; V->ino[i].high = 0; V->ino[i].dsize = 0; }
    for (int k = 0; k < MAX_FD; ++k) if (!g_fd[k].used) {
        g_fd[k].used = true; g_fd[k].ino = i; g_fd[k].flags = flags; g_fd[k].pos = 0;
        V->ino[i].opens++;
        trace("open %s flags=%x -> fd %d", path, flags, FD_BASE + k);
        return FD_BASE + k;
    }
    errno = EMFILE; return -1;
}
static int do_close(int fd)
{
    sched_point(P_IO);
    FD* f = getfd(fd);
    if (!f) violation("bad-fd-close", "close of a file descriptor %d that is not open", fd);
    f->used = false; V->ino[f->ino].opens--; drop(f->ino);
    trace("close fd %d", fd);
    return 0;
}
static int lat_class(bool w) { return w ? 1 : 2; }
static ssize_t do_rw(int fd, char* buf, size_t len, bool wr, bool positioned, u64 off)
{
    sched_point(P_IO);
    FD* f = getfd(fd);
    if (!f) { probe("rw-on-closed-fd"); errno = EBADF; return -1; }
    if (wr ? (f->flags & O_ACCMODE) == O_RDONLY : (f->flags & O_ACCMODE) == O_WRONLY) { errno = EBADF; return -1; }
    if (!positioned) off = f->pos;
    if ((f->flags & O_DIRECT) && ((off | len | (u64)buf) & 511)) { probe("odirect-misaligned"); errno = EINVAL; return -1; }
    int ino = f->ino; bool sync = f->flags & O_DSYNC;
    if (fault(F_EINTR)) { log_err(ino, wr, false, off, len, EINTR); errno = EINTR; return -1; }
    V->ino[ino].opens++; // keeps the inode alive during the transfer
    size_t n = len; int err = 0; u64 p;
    if (wr) {
        if (fault(F_EIO_WRITE, &p)) { err = EIO; n = p % 2 ? 0 : len / 2 / 512 * 512; }
        else if (fault(F_ENOSPC, &p)) { err = ENOSPC; n = p % 2 ? 0 : len / 2 / 512 * 512; }
        else if (len > 1 && fault(F_SHORT_WRITE, &p)) { n = 1 + p % (len - 1); if (f->flags & O_DIRECT) { n = n / 512 * 512; if (!n) n = len > 512 ? 512 : len; } }
        if (!err && V->capacity && off + n > V->ino[ino].high) {
            u64 grow = off + n - V->ino[ino].high, u = used_bytes();
            if (u + grow > V->capacity) { u64 room = V->capacity > u ? V->capacity - u : 0; n = n > grow - room ? n - (grow - room) : 0; if (f->flags & O_DIRECT) n = n / 512 * 512; if (!n) err = ENOSPC; probe("disk-full"); }
        }
    } else {
        if (fault(F_EIO_READ, &p)) { err = EIO; n = p % 2 ? 0 : len / 2 / 512 * 512; }
        else if (len > 1 && fault(F_SHORT_READ, &p)) { n = 1 + p % (len - 1); if (f->flags & O_DIRECT) { n = n / 512 * 512; if (!n) n = len > 512 ? 512 : len; } }
        u64 sz = V->ino[ino].size;
        if (off >= sz) n = 0; else if (off + n > sz) n = sz - off;
    }
    V->opcount++;
    // the transfer happens in pieces over simulated time
    u64 l = io_latency(lat_class(wr));
    size_t h = n >= 1024 ? n / 2 / 512 * 512 : n;
    if (err) h = 0;
    io_sleep(l / 2);
    if (wr) kill_point();
    trace("%s %s off=%llu len=%zu n=%zu err=%d", wr ? "write" : "read", V->ino[ino].name, off, len, n, err);
    loghash(wr ? 0x11 : 0x12, hash2(off, n));
    if (wr) dev_write(ino, off, buf, err ? n : h, sync); else dev_read(ino, off, buf, err ? n : h);
    if (!err && n > h) {
        io_sleep(l / 2);
        if (wr) kill_point();
        if (wr) dev_write(ino, off + h, buf + h, n - h, sync); else dev_read(ino, off + h, buf + h, n - h);
    }
    V->ino[ino].opens--; drop(ino);
    if (wr) kill_point();
    if (err) { log_err(ino, wr, false, off, len, err); errno = err; return -1; }
    if (!positioned && getfd(fd)) getfd(fd)->pos = off + n;
    return (ssize_t)n;
}
static off64_t do_lseek(int fd, off64_t o, int wh)
{
    sched_point(P_IO);
    FD* f = getfd(fd);
    if (!f) { errno = EBADF; return -1; }
    off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (off64_t)f->pos : (off64_t)V->ino[f->ino].size;
    if (b + o < 0) { errno = EINVAL; return -1; }
    f->pos = (u64)(b + o);
    return (off64_t)f->pos;
}
static int do_truncate_ino(int i, off64_t len)
{
    Inode& n = V->ino[i];
    if (len < 0 || (u64)len > INODE_SPAN) { errno = EFBIG; return -1; }
    if ((u64)len < n.size) { zero_range(i, (u64)len, n.size); if (n.high > (u64)len) n.high = (u64)len;
        if (V->track) { if (n.dsize > (u64)len) n.dsize = (u64)len; } }
    n.size = (u64)len;
    return 0;
}
static int do_ftruncate(int fd, off64_t len)
{
    sched_point(P_IO);
    FD* f = getfd(fd);
    if (!f) { errno = EBADF; return -1; }
    if (fault(F_TRUNC_FAIL)) { errno = EIO; return -1; }
    trace("ftruncate %s %lld", V->ino[f->ino].name, (long long)len);
    kill_point();
    int r = do_truncate_ino(f->ino, len);
    kill_point();
    return r;
}
static void fill_stat(struct stat* st, int i)
{
    memset(st, 0, sizeof *st);
    st->st_mode = S_IFREG | 0660; st->st_size = (off_t)V->ino[i].size; st->st_blksize = 4096; st->st_ino = (ino_t)(i + 1); st->st_nlink = V->ino[i].linked;
}
static int do_unlink(const char* p)
{
    sched_point(P_IO);
    int i = lookup(p);
    if (i < 0) { errno = ENOENT; return -1; }
    V->ino[i].linked = false; drop(i);
    trace("unlink %s", p);
    return 0;
}
} // namespace sim
using namespace sim;
#define RET(x) do { long r_ = (x); if (r_ < 0 && r_ > -4096) { errno = (int)-r_; return -1; } return r_; } while (0)
extern "C" {
int open64(const char* p, int fl, ...)
{
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    if (simpath(p)) return do_open(p, fl);
    RET(rsys(SYS_open, (long)p, fl | O_LARGEFILE, m));
}
int open(const char* p, int fl, ...)
{
    va_list ap; va_start(ap, fl); int m = va_arg(ap, int); va_end(ap);
    if (simpath(p)) return do_open(p, fl);
    RET(rsys(SYS_open, (long)p, fl, m));
}
int close(int fd) { if (isfd(fd)) return do_close(fd); RET(rsys(SYS_close, fd)); }
ssize_t read(int fd, void* b, size_t n) { if (isfd(fd)) return do_rw(fd, (char*)b, n, false, false, 0); RET(rsys(SYS_read, fd, (long)b, (long)n)); }
ssize_t write(int fd, const void* b, size_t n) { if (isfd(fd)) return do_rw(fd, (char*)b, n, true, false, 0); RET(rsys(SYS_write, fd, (long)b, (long)n)); }
ssize_t pread64(int fd, void* b, size_t n, off64_t o) { if (isfd(fd)) return do_rw(fd, (char*)b, n, false, true, (u64)o); RET(rsys(SYS_pread64, fd, (long)b, (long)n, o)); }
ssize_t pwrite64(int fd, const void* b, size_t n, off64_t o) { if (isfd(fd)) return do_rw(fd, (char*)b, n, true, true, (u64)o); RET(rsys(SYS_pwrite64, fd, (long)b, (long)n, o)); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return pread64(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return pwrite64(fd, b, n, o); }
off64_t lseek64(int fd, off64_t o, int w) { if (isfd(fd)) return do_lseek(fd, o, w); RET(rsys(SYS_lseek, fd, o, w)); }
off_t lseek(int fd, off_t o, int w) { return lseek64(fd, o, w); }
int ftruncate64(int fd, off64_t n) { if (isfd(fd)) return do_ftruncate(fd, n); RET(rsys(SYS_ftruncate, fd, n)); }
int ftruncate(int fd, off_t n) { return ftruncate64(fd, n); }
int truncate64(const char* p, off64_t n)
{
    if (!simpath(p)) RET(rsys(SYS_truncate, (long)p, n));
    sched_point(P_IO);
    int i = lookup(p);
    if (i < 0) { errno = ENOENT; return -1; }
    if (fault(F_TRUNC_FAIL)) { errno = EIO; return -1; }
    return do_truncate_ino(i, n);
}
int truncate(const char* p, off_t n) { return truncate64(p, n); }
int fstat(int fd, struct stat* st)
{
    if (!isfd(fd)) RET(rsys(SYS_fstat, fd, (long)st));
    FD* f = getfd(fd);
    if (!f) { errno = EBADF; return -1; }
    fill_stat(st, f->ino); return 0;
}
int fstat64(int fd, struct stat64* st) { return fstat(fd, (struct stat*)st); }
int stat(const char* p, struct stat* st)
{
    if (!simpath(p)) RET(rsys(SYS_stat, (long)p, (long)st));
    int i = lookup(p);
    if (i < 0) { errno = ENOENT; return -1; }
    fill_stat(st, i); return 0;
}
int stat64(const char* p, struct stat64* st) { return stat(p, (struct stat*)st); }
int unlink(const char* p) { if (simpath(p)) return do_unlink(p); RET(rsys(SYS_unlink, (long)p)); }
int remove(const char* p)
{
    if (simpath(p)) return do_unlink(p);
    long r = rsys(SYS_unlink, (long)p);
    if (r == -EISDIR) r = rsys(SYS_rmdir, (long)p);
    RET(r);
}
int rename(const char* a, const char* b)
{
    if (!simpath(a)) RET(rsys(SYS_rename, (long)a, (long)b));
    sched_point(P_IO);
    int i = lookup(a);
    if (i < 0) { errno = ENOENT; return -1; }
    int j = lookup(b);
    if (j == i) return 0;
    if (j >= 0) { V->ino[j].linked = false; drop(j); }
    memset(V->ino[i].name, 0, 96); strncpy(V->ino[i].name, b, 95);
    return 0;
}
int fsync(int fd)
{
    if (!isfd(fd)) RET(rsys(SYS_fsync, fd));
    FD* f = getfd(fd); sched_point(P_IO);
    if (f && V->track) make_durable(f->ino, 0, V->ino[f->ino].size);
    return 0;
}
int fdatasync(int fd) { if (!isfd(fd)) RET(rsys(SYS_fdatasync, fd)); return fsync(fd); }
int fcntl64(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    if (!isfd(fd)) RET(rsys(SYS_fcntl, fd, cmd, a));
    if (!getfd(fd)) { errno = EBADF; return -1; }
    if (cmd == F_SETLK || cmd == F_SETLKW) { sched_point(P_IO); if (fault(F_LOCK_FAIL)) { errno = EAGAIN; return -1; } }
    if (cmd == F_GETFL) return getfd(fd)->flags;
    return 0;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
    return fcntl64(fd, cmd, a);
}
void* mmap64(void* at, size_t len, int prot, int flags, int fd, off64_t off)
{
    if (!isfd(fd)) {
        long r = rsys(SYS_mmap, (long)at, (long)len, prot, flags, fd, off);
        if (r < 0 && r > -4096) { errno = (int)-r; return MAP_FAILED; }
        return (void*)r;
    }
    sched_point(P_IO);
    FD* f = getfd(fd);
    if (!f) { errno = EBADF; return MAP_FAILED; }
    if (len == 0 || (off & 4095)) { probe("mmap-misaligned"); errno = EINVAL; return MAP_FAILED; }
    if ((prot & PROT_WRITE) && (flags & MAP_SHARED) && (f->flags & O_ACCMODE) != O_RDWR) { errno = EACCES; return MAP_FAILED; }
    if ((f->flags & O_ACCMODE) == O_WRONLY) { errno = EACCES; return MAP_FAILED; }
    if (fault(F_MMAP_FAIL)) { log_err(f->ino, false, true, (u64)off, len, ENOMEM); errno = ENOMEM; return MAP_FAILED; }
    // access beyond the last page of the file would raise SIGBUS
    u64 end = (V->ino[f->ino].size + 4095) & ~4095ull;
    if ((u64)off + len > end) violation("mmap-beyond-eof", "mapping %s [%lld,+%zu) beyond end of file %llu would fault on access", V->ino[f->ino].name, (long long)off, len, V->ino[f->ino].size);
    if ((u64)off + len > V->ino[f->ino].high) V->ino[f->ino].high = (u64)off + len;
    mark_dirty(f->ino, (u64)off, len);
    io_sleep(io_latency(3));
    trace("mmap %s off=%lld len=%zu", V->ino[f->ino].name, (long long)off, len);
    return idata(f->ino) + off;
}
void* mmap(void* at, size_t len, int prot, int flags, int fd, off_t off) { return mmap64(at, len, prot, flags, fd, off); }
int munmap(void* p, size_t len)
{
    if ((uintptr_t)p >= VFS_DATA && (uintptr_t)p < VFS_DATA + 2 * DUR_OFF) { sched_point(P_IO); kill_point(); return 0; }
    RET(rsys(SYS_munmap, (long)p, (long)len));
}
int msync(void* p, size_t len, int fl)
{
    if ((uintptr_t)p >= VFS_DATA && (uintptr_t)p < VFS_DATA + 2 * DUR_OFF) {
        sched_point(P_IO);
        u64 d = (uintptr_t)p - VFS_DATA; int i = (int)(d / INODE_SPAN);
        if (fl & MS_SYNC) make_durable(i, d % INODE_SPAN, len);
        return 0;
    }
    RET(rsys(SYS_msync, (long)p, (long)len, fl));
}
long syscall(long n, ...)
{
    va_list ap; va_start(ap, n);
    long a[6]; for (int i = 0; i < 6; ++i) a[i] = va_arg(ap, long);
    va_end(ap);
    if (g_insim) switch (n) {
        case SYS_io_setup: return aio_setup((unsigned)a[0], (aio_context_t*)a[1]);
        case SYS_io_destroy: return aio_destroy((aio_context_t)a[0]);
        case SYS_io_submit: return aio_submit((aio_context_t)a[0], a[1], (struct iocb**)a[2]);
        case SYS_io_getevents: return aio_getevents((aio_context_t)a[0], a[1], a[2], (struct io_event*)a[3], (struct timespec*)a[4]);
        case SYS_io_cancel: return aio_cancel((aio_context_t)a[0], (struct iocb*)a[1], (struct io_event*)a[2]);
        }
    RET(rsys(n, a[0], a[1], a[2], a[3], a[4], a[5]));
}
}
