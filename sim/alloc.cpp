// Deterministic allocator: two arenas at fixed addresses. The simulated arena fills new memory with
// 0xCD, freed memory with 0xDD, keeps freed objects in a FIFO quarantine and checks canaries, so that
// use-after-free, overflow and device I/O into freed memory show up deterministically.
#include "internal.h"
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <new>

namespace sim {
long rsys(long n, long a, long b, long c, long d, long e, long f)
{
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8") = e;
    register long r9 __asm__("r9") = f;
    __asm__ volatile ("syscall" : "=a" (ret) : "a" (n), "D" (a), "S" (b), "d" (c), "r" (r10), "r" (r8), "r" (r9)
                      : "rcx", "r11", "memory");
    return ret;
}

bool g_alloc_sim = false;

namespace {
const size_t SPAN = 65536;
const size_t NSPANS = ARENA_SIZE / SPAN;
struct Obj { uint32_t size, off, next; uint32_t serial; uint8_t state; }; // state 0 never,1 live,2 quarantined,3 free
struct Span { uint32_t objsz; uint32_t nspan; uint32_t back; uint16_t cls; uint16_t nobj; Obj* o; };
const int NCLS = 48;
uint32_t cls_size[NCLS]; int ncls;
uint8_t cls_of[2049]; // by (size+15)/16 up to 32768
uintptr_t meta_cur = 0, meta_end = 0;

void raw_map(uintptr_t at, size_t len)
{
    long r = rsys(SYS_mmap, (long)at, (long)len, PROT_READ | PROT_WRITE,
                  MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED | MAP_NORESERVE, -1, 0);
    if (r != (long)at) { const char m[] = "sim: cannot map arena\n"; rsys(SYS_write, 2, (long)m, sizeof m - 1); rsys(SYS_exit_group, 3); }
}
void* meta(size_t n)
{
    n = (n + 15) & ~15ull;
    if (!meta_cur) { meta_cur = META_BASE; meta_end = META_BASE + (8ull << 30); raw_map(META_BASE, 8ull << 30); }
    void* p = (void*)meta_cur; meta_cur += n;
    return p;
}

struct Arena
{
    uintptr_t base; bool sim; bool inited;
    size_t used;
    Span* spans;
    uint64_t freeh[NCLS], freet[NCLS]; uint32_t nfree[NCLS]; // FIFO, entries (span<<16|idx)+1
    uint64_t qh[NCLS], qt[NCLS]; uint32_t nq[NCLS];
    uint32_t bump_span[NCLS], bump_idx[NCLS];
    uint32_t lfree[1025]; // free large by nspan (span index+1)
    uint32_t serial;
    u64 live_bytes, live_objs;

    void init()
    {
        inited = true;
        raw_map(base, ARENA_SIZE);
        spans = (Span*)meta(sizeof(Span) * NSPANS);
        used = 1;
    }
    Obj& obj(uint64_t e) { return spans[(e - 1) >> 16].o[(e - 1) & 0xffff]; }
    char* addr(uint64_t e) { return (char*)(base + ((e - 1) >> 16) * SPAN + ((e - 1) & 0xffff) * (uint64_t)spans[(e - 1) >> 16].objsz); }
    // links stored in Obj.next as (span,idx) need 34 bits; use separate array
};
Arena H, S;

// FIFO links: since Obj.next is 32 bits, pack span(18 bits) and idx(12 bits: <=4096)
inline uint32_t pack(uint32_t sp, uint32_t idx) { return (sp << 12 | (idx & 0xfff)) + 1; }
inline uint32_t psp(uint32_t e) { return (e - 1) >> 12; }
inline uint32_t pidx(uint32_t e) { return (e - 1) & 0xfff; }

void setup_classes()
{
    uint32_t s = 16; ncls = 0;
    while (s <= 32768) {
        cls_size[ncls++] = s;
        uint32_t step = s < 128 ? 16 : s < 256 ? 32 : s < 512 ? 64 : s < 1024 ? 128 : s < 2048 ? 256 : s < 4096 ? 512 : s < 8192 ? 1024 : s < 16384 ? 2048 : 8192;
        s += step;
    }
    int c = 0;
    for (uint32_t i = 0; i <= 2048; ++i) { while (cls_size[c] < i * 16) ++c; cls_of[i] = (uint8_t)c; }
}

void ensure()
{
    if (!ncls) { setup_classes(); H.base = HOST_BASE; S.base = SIM_BASE; S.sim = true; H.init(); S.init(); }
}

inline char* oaddr(Arena& A, uint32_t sp, uint32_t idx) { return (char*)(A.base + (uint64_t)sp * SPAN + (uint64_t)idx * A.spans[sp].objsz); }

[[noreturn]] void bad(const char* cls, const void* p)
{
    violation(cls, "memory error: %s at %p", cls, p);
}

void* arena_alloc(Arena& A, size_t size, size_t align)
{
    size_t need = size ? size : 1;
    if (align > 16) need += align;
    if (A.sim) need += 8; // canary
    if (need > (8ull << 30)) return NULL;
    uint32_t sp, idx; Obj* o; char* p;
    if (need <= 32768) {
        int c = cls_of[(need + 15) / 16];
        uint32_t e = (uint32_t)A.freeh[c];
        if (e) {
            sp = psp(e), idx = pidx(e); o = &A.spans[sp].o[idx];
            A.freeh[c] = o->next; if (!o->next) A.freet[c] = 0;
            A.nfree[c]--;
            p = oaddr(A, sp, idx);
            if (A.sim) {
                size_t chk = cls_size[c] < 256 ? cls_size[c] : 256;
                for (size_t i = 0; i < chk; ++i)
                    if ((unsigned char)p[i] != 0xDD) bad("write-after-free", p + i);
            }
        } else {
            if (!A.bump_span[c] || A.bump_idx[c] >= A.spans[A.bump_span[c]].nobj) {
                if (A.used + 1 >= NSPANS) return NULL;
                sp = (uint32_t)A.used++;
                Span& s = A.spans[sp];
                s.objsz = cls_size[c]; s.nspan = 1; s.cls = (uint16_t)c; s.back = 0;
                s.nobj = (uint16_t)(SPAN / cls_size[c]); if (s.nobj > 4096) s.nobj = 4096;
                s.o = (Obj*)meta(sizeof(Obj) * s.nobj);
                A.bump_span[c] = sp; A.bump_idx[c] = 0;
            }
            sp = A.bump_span[c]; idx = A.bump_idx[c]++;
            o = &A.spans[sp].o[idx];
            p = oaddr(A, sp, idx);
        }
    } else {
        size_t n = (need + SPAN - 1) / SPAN;
        if (n <= 1024 && A.lfree[n]) {
            sp = A.lfree[n] - 1; A.lfree[n] = A.spans[sp].o->next;
        } else {
            if (A.used + n + 1 >= NSPANS) return NULL;
            sp = (uint32_t)A.used; A.used += n;
            A.spans[sp].o = (Obj*)meta(sizeof(Obj));
            A.spans[sp].objsz = 0; A.spans[sp].nspan = (uint32_t)n; A.spans[sp].nobj = 1;
            for (size_t i = 1; i < n; ++i) { A.spans[sp + i].back = (uint32_t)i; A.spans[sp + i].o = NULL; }
        }
        idx = 0; o = A.spans[sp].o; p = (char*)(A.base + (uint64_t)sp * SPAN);
    }
    size_t off = 0;
    if (align > 16) off = (align - ((uintptr_t)p & (align - 1))) & (align - 1);
    o->size = (uint32_t)size; o->off = (uint32_t)off; o->state = 1; o->serial = ++A.serial; o->next = 0;
    A.live_bytes += size; A.live_objs++;
    if (A.sim) {
        memset(p + off, 0xCD, size < (1u << 16) ? size : (1u << 16));
        memset(p + off + size, 0xFB, 8);
    }
    return p + off;
}

bool find(Arena& A, const void* q, uint32_t& sp, uint32_t& idx)
{
    uint64_t d = (uintptr_t)q - A.base;
    sp = (uint32_t)(d / SPAN);
    if (sp == 0 || sp >= A.used) return false;
    if (A.spans[sp].back) sp -= A.spans[sp].back;
    Span& s = A.spans[sp];
    if (!s.o) return false;
    idx = s.objsz ? (uint32_t)((d % SPAN) / s.objsz) : 0;
    return idx < s.nobj;
}

void arena_free(Arena& A, void* q)
{
    uint32_t sp, idx;
    if (!find(A, q, sp, idx)) { if (A.sim) bad("invalid-free", q); return; }
    Span& s = A.spans[sp]; Obj& o = s.o[idx];
    char* p = s.objsz ? oaddr(A, sp, idx) : (char*)(A.base + (uint64_t)sp * SPAN);
    if (A.sim) {
        if (o.state != 1) bad(o.state == 2 || o.state == 3 ? "double-free" : "invalid-free", q);
        if (p + o.off != q) bad("invalid-free", q);
        for (int i = 0; i < 8; ++i)
            if ((unsigned char)p[o.off + o.size + i] != 0xFB) bad("heap-overflow", p + o.off + o.size + i);
    }
    A.live_bytes -= o.size; A.live_objs--;
    if (s.objsz) {
        int c = s.cls;
        if (!A.sim) {
            o.state = 3; o.next = 0;
            uint32_t e = pack(sp, idx);
            // LIFO for host
            o.next = (uint32_t)A.freeh[c]; A.freeh[c] = e; A.nfree[c]++;
            return;
        }
        memset(p, 0xDD, s.objsz);
        o.state = 2; o.next = 0;
        uint32_t e = pack(sp, idx);
        if (A.qt[c]) A.spans[psp((uint32_t)A.qt[c])].o[pidx((uint32_t)A.qt[c])].next = e; else A.qh[c] = e;
        A.qt[c] = e; A.nq[c]++;
        uint32_t lim = 1u << 20; lim /= s.objsz; if (lim > 512) lim = 512; if (lim < 16) lim = 16;
        while (A.nq[c] > lim) {
            uint32_t f = (uint32_t)A.qh[c]; Obj& fo = A.spans[psp(f)].o[pidx(f)];
            A.qh[c] = fo.next; if (!fo.next) A.qt[c] = 0;
            A.nq[c]--;
            fo.next = 0; fo.state = 3;
            if (A.freet[c]) A.spans[psp((uint32_t)A.freet[c])].o[pidx((uint32_t)A.freet[c])].next = f; else A.freeh[c] = f;
            A.freet[c] = f; A.nfree[c]++;
        }
    } else {
        if (A.sim) memset(p, 0xDD, (size_t)s.nspan * SPAN < (1u << 16) ? (size_t)s.nspan * SPAN : (1u << 16));
        o.state = 3;
        if (s.nspan <= 1024) { o.next = A.lfree[s.nspan]; A.lfree[s.nspan] = sp + 1; }
        else rsys(SYS_madvise, (long)p, (long)((size_t)s.nspan * SPAN), MADV_DONTNEED);
    }
}
size_t usable(void* q)
{
    Arena& A = (uintptr_t)q >= SIM_BASE && (uintptr_t)q < SIM_BASE + ARENA_SIZE ? S : H;
    uint32_t sp, idx;
    if (!find(A, q, sp, idx)) return 0;
    return A.spans[sp].o[idx].size;
}
} // namespace

bool in_sim_arena(const void* p) { return (uintptr_t)p >= SIM_BASE && (uintptr_t)p < SIM_BASE + ARENA_SIZE; }

const char* mem_bad(const void* p, size_t len)
{
    if (!in_sim_arena(p)) return NULL;
    uint32_t sp, idx;
    if (!find(S, p, sp, idx)) return "unallocated";
    Span& s = S.spans[sp]; Obj& o = s.o[idx];
    if (o.state == 2 || o.state == 3) return "freed";
    if (o.state != 1) return "unallocated";
    char* b = (s.objsz ? oaddr(S, sp, idx) : (char*)(S.base + (uint64_t)sp * SPAN)) + o.off;
    if ((char*)p < b || (char*)p + len > b + o.size) return "out-of-bounds";
    return NULL;
}
u64 mem_live_bytes() { return S.live_bytes; }
u64 mem_live_objs() { return S.live_objs; }
void alloc_sim_reset() { }

HostScope::HostScope() { saved = g_alloc_sim; g_alloc_sim = false; }
HostScope::~HostScope() { g_alloc_sim = saved; }
} // namespace sim

using namespace sim;
extern "C" {
void* malloc(size_t n)
{
    ensure();
    if (g_alloc_sim) {
        if (g_insim && fault(F_NOMEM)) { errno = ENOMEM; return NULL; }
        void* p = arena_alloc(S, n, 16);
        if (!p) errno = ENOMEM;
        return p;
    }
    return arena_alloc(H, n, 16);
}
void free(void* p)
{
    if (!p) return;
    if (in_sim_arena(p)) arena_free(S, p);
    else if ((uintptr_t)p >= HOST_BASE && (uintptr_t)p < HOST_BASE + ARENA_SIZE) arena_free(H, p);
}
void* calloc(size_t a, size_t b)
{
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    void* p = malloc(n);
    if (p) memset(p, 0, n);
    return p;
}
void* realloc(void* p, size_t n)
{
    if (!p) return malloc(n);
    if (!n) { free(p); return NULL; }
    size_t o = usable(p);
    void* q = malloc(n);
    if (!q) return NULL;
    memcpy(q, p, o < n ? o : n);
    free(p);
    return q;
}
int posix_memalign(void** out, size_t al, size_t n)
{
    ensure();
    void* p = arena_alloc(g_alloc_sim ? S : H, n, al < 16 ? 16 : al);
    if (!p) return ENOMEM;
    *out = p;
    return 0;
}
void* memalign(size_t al, size_t n) { void* p = NULL; if (posix_memalign(&p, al, n)) return NULL; return p; }
void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ull); }
size_t malloc_usable_size(void* p) { return p ? usable(p) : 0; }
}
