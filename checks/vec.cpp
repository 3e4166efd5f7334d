// External vector against a reference array: all access paths, all page/pager/allocation configurations, disk contents after flush.
#include "cont.h"
#include <stxxl/vector>
#include <stxxl/bits/io/create_file.h>
#include <memory>
using namespace chk;
namespace {
enum { SET, GET, CGET, PUSH, POP, RESIZE, SHRINK, RESERVE, FLUSH, CLEAR, SWAP, COPY, ASSIGN, BUFREAD, BUFREADR, BUFWRITE, ITER, RITER, FILL, CACHE, EXTERN, RECREATE, COMPARE, FRONTBACK, CONTENT, NOPS };
const char* opn[] = { "set", "get", "get-const", "push_back", "pop_back", "resize", "resize-shrink", "reserve", "flush+verify-disk", "clear", "swap", "copy-construct", "assign",
                      "buffered-read", "buffered-reverse-read", "buffered-write", "iterate", "iterate-reverse", "std::fill", "drop+restore page cache", "external block update", "destroy+recreate", "compare", "front/back", "set_content" };
struct NoInit { };

template <class V>
struct Run
{
    typedef typename V::value_type T;
    typedef typename V::block_type block;
    struct Item { u64 v; bool known; Item() : v(0), known(false) { } };
    struct Obj { V* v; stxxl::file* f; int fno; std::vector<Item> m; };
    Obj o[2]; u64 next; const sim::Case* cs; size_t npages, maxn;

    static size_t epb() { return block::size; }
    stxxl::file* mkfile(int no)
    {
        char p[40]; snprintf(p, sizeof p, "/sim/vec%d", no);
        long ty = cs->get("ftype");
        const char* impl = ty == 0 ? "syscall" : ty == 1 ? "linuxaio" : ty == 2 ? "mmap" : "memory";
        int fl = stxxl::file::CREAT | stxxl::file::RDWR | (cs->get("fdirect") && ty < 2 ? stxxl::file::DIRECT : 0);
        return stxxl::create_file(impl, p, fl, 0);
    }
    bool filemode() { return cs->get("file") != 0; }
    void make(Obj& x, size_t n)
    {
        x.v = filemode() ? new V(x.f, n, npages) : new V(n, npages);
    }
    void chkel(const T& e, const Item& it, size_t i, const char* how)
    {
        sim::NoPreempt np;
        if (!it.known) return;
        SIM_CHECK(e.v == it.v, "wrong-element", "%s: element %zu is %llu, expected %llu", how, i, e.v, it.v);
        SIM_CHECK(e.ok(), "torn-element", "%s: element %zu has its value but a damaged body", how, i);
    }
    void put(Obj& x, size_t i, u64 v) { sim::NoPreempt np; x.m[i].v = v; x.m[i].known = true; }
    void msize(Obj& x, size_t n) { sim::NoPreempt np; x.m.resize(n); }
    void all(Obj& x, const char* how)
    {
        const V& cv = *x.v;
        SIM_CHECK(cv.size() == x.m.size(), "wrong-size", "%s: size is %llu, expected %zu", how, (u64)cv.size(), x.m.size());
        SIM_CHECK(cv.empty() == x.m.empty(), "wrong-size", "%s: empty() is wrong", how);
        SIM_CHECK(cv.capacity() >= cv.size(), "wrong-capacity", "%s: capacity below size", how);
        for (size_t i = 0; i < x.m.size(); ++i) chkel(cv[i], x.m[i], i, how);
    }
    void disk(Obj& x, const char* how)
    {
        block* b = new block;
        for (size_t i = 0; i < x.m.size(); i += epb()) {
            b->read(*(x.v->begin() + (long)i).bid())->wait();
            for (size_t j = i; j < i + epb() && j < x.m.size(); ++j) chkel(b->elem[j - i], x.m[j], j, how);
        }
        delete b;
    }
    void step(const sim::Op& op)
    {
        Obj& x = o[op.a[0] % 2]; Obj& y = o[1 - op.a[0] % 2];
        V& v = *x.v; const V& cv = v;
        size_t n = x.m.size();
        size_t a = n ? (size_t)op.a[1] % n : 0;
        switch (op.code) {
        case SET: if (!n) break;
            for (long k = 0; k <= op.a[3] % 4; ++k) {
                size_t i = (a + (size_t)k * (size_t)op.a[2]) % n;
                if (op.a[2] % 3 == 0) v[i] = T(next); else if (op.a[2] % 3 == 1) v.at(i) = T(next); else *(v.begin() + (long)i) = T(next);
                put(x, i, next++);
            }
            break;
        case GET: if (!n) break;
            for (long k = 0; k <= op.a[3] % 4; ++k) { size_t i = (a + (size_t)k * (size_t)op.a[2]) % n; chkel(v[i], x.m[i], i, "operator[]"); }
            break;
        case CGET: if (!n) break;
            for (long k = 0; k <= op.a[3] % 4; ++k) {
                size_t i = (a + (size_t)k * (size_t)op.a[2]) % n;
                chkel(cv[i], x.m[i], i, "const operator[]");
                SIM_CHECK(npages == 0 || v.is_element_cached(i), "not-cached", "element %zu is not in the cache just after access", i);
                chkel(*(cv.begin() + (long)i), x.m[i], i, "const_iterator");
            }
            break;
        case PUSH:
            for (long k = 0; k <= op.a[1] % 12 && n + (size_t)k < maxn; ++k) { v.push_back(T(next)); msize(x, n + (size_t)k + 1); put(x, n + (size_t)k, next++); }
            break;
        case POP:
            for (long k = 0; k <= op.a[1] % 12 && !x.m.empty(); ++k) { chkel(v.back(), x.m.back(), x.m.size() - 1, "back before pop"); v.pop_back(); msize(x, x.m.size() - 1); }
            break;
        case RESIZE: { size_t k = (size_t)op.a[1] % (maxn + 1); v.resize(k); msize(x, k); break; }
        case SHRINK: {
            size_t k = (size_t)op.a[1] % (maxn + 1); v.resize(k, true); msize(x, k);
            if (k < n) SIM_CHECK(v.capacity() <= (n + epb() - 1) / epb() * epb() || v.capacity() - epb() < k, "no-shrink", "capacity did not shrink");
            break;
        }
        case RESERVE: { size_t k = (size_t)op.a[1] % (maxn + 1); v.reserve(k); SIM_CHECK(v.capacity() >= k, "wrong-capacity", "capacity after reserve(%zu) is %llu", k, (u64)v.capacity()); break; }
        case FLUSH: v.flush(); disk(x, "on disk after flush"); break;
        case CLEAR: if (op.a[1] % 3) break; v.clear(); msize(x, 0); SIM_CHECK(v.size() == 0 && v.empty(), "wrong-size", "not empty after clear"); break;
        case SWAP: if (op.a[2] % 2) v.swap(*y.v); else std::swap(v, *y.v); { sim::NoPreempt np; x.m.swap(y.m); std::swap(x.f, y.f); std::swap(x.fno, y.fno); } break;
        case COPY: { if (filemode()) break; V* c = new V(cv); { sim::NoPreempt np; y.m = x.m; } delete y.v; y.v = c; all(y, "copy"); break; }
        case ASSIGN: if (filemode()) break; *y.v = v; { sim::NoPreempt np; y.m = x.m; } break;
        case BUFREAD: {
            if (!n && op.a[3] % 2) break;
            size_t b = n ? a + (size_t)op.a[2] % (n - a + 1) : 0;
            if (op.a[4] % 3 == 0) { a = 0; b = n; }
            typename V::bufreader_type rd(cv.begin() + (long)a, cv.begin() + (long)b, (stxxl::unsigned_type)(op.a[3] % 6));
            for (int round = 0; round < (op.a[4] % 5 == 0 ? 2 : 1); ++round) {
                size_t stop = op.a[4] % 7 == 3 && round == 0 && op.a[4] % 5 == 0 ? (a + b) / 2 : b;
                for (size_t i = a; i < stop; ++i) {
                    SIM_CHECK(!rd.empty() && rd.size() == b - i, "bufreader-size", "buffered reader has %llu left at %zu of [%zu,%zu)", (u64)rd.size(), i, a, b);
                    if (i % 2) { T e; rd >> e; chkel(e, x.m[i], i, "buffered reader"); } else { chkel(*rd, x.m[i], i, "buffered reader"); ++rd; }
                }
                if (stop == b) SIM_CHECK(rd.empty(), "bufreader-size", "buffered reader is not empty at the end");
                if (round == 0 && op.a[4] % 5 == 0) rd.rewind();
            }
            break;
        }
        case BUFREADR: {
            if (!n) break;
            size_t b = a + (size_t)op.a[2] % (n - a + 1);
            if (op.a[4] % 3 == 0) { a = 0; b = n; }
            typename V::bufreader_reverse_type rd(cv.begin() + (long)a, cv.begin() + (long)b, (stxxl::unsigned_type)(op.a[3] % 6));
            for (int round = 0; round < (op.a[4] % 5 == 0 ? 2 : 1); ++round) {
                for (size_t i = b; i > a; --i) {
                    SIM_CHECK(!rd.empty() && rd.size() == i - a, "bufreader-size", "reverse reader has %llu left at %zu of [%zu,%zu)", (u64)rd.size(), i, a, b);
                    chkel(*rd, x.m[i - 1], i - 1, "reverse buffered reader"); ++rd;
                }
                SIM_CHECK(rd.empty(), "bufreader-size", "reverse reader is not empty at the end");
                if (round == 0 && op.a[4] % 5 == 0) rd.rewind();
            }
            break;
        }
        case BUFWRITE: {
            if (op.a[4] % 4 == 0) a = 0;
            size_t cnt = (size_t)op.a[2] % (epb() * 9);
            if (a + cnt > maxn) cnt = maxn - a;
            {
                typename V::bufwriter_type wr(v.begin() + (long)a, (stxxl::unsigned_type)(op.a[3] % 6));
                for (size_t i = 0; i < cnt; ++i) {
                    if (i % 2) wr << T(next); else { *wr = T(next); ++wr; }
                    if (a + i >= x.m.size()) msize(x, a + i + 1);
                    put(x, a + i, next++);
                }
                if (op.a[4] % 3 == 0) wr.finish();
            }
            SIM_CHECK(v.size() == x.m.size(), "wrong-size", "size after buffered writing of %zu elements at %zu is %llu, expected %zu", cnt, a, (u64)v.size(), x.m.size());
            break;
        }
        case ITER: {
            size_t i = 0;
            if (op.a[2] % 2) for (typename V::const_iterator it = cv.begin(); it != cv.end(); ++it, ++i) chkel(*it, x.m[i], i, "iteration");
            else for (typename V::iterator it = v.begin(); it != v.end(); it++, ++i) { chkel(*it, x.m[i], i, "iteration"); if (i % 5 == (size_t)op.a[1] % 5) { *it = T(next); put(x, i, next++); } }
            SIM_CHECK(i == n, "wrong-size", "iteration visits %zu of %zu elements", i, n);
            break;
        }
        case RITER: {
            size_t i = n;
            for (typename V::reverse_iterator it = v.rbegin(); it != v.rend(); ++it) { --i; chkel(*it, x.m[i], i, "reverse iteration"); }
            SIM_CHECK(i == 0, "wrong-size", "reverse iteration leaves out %zu elements", i);
            break;
        }
        case FILL: {
            if (!n) break;
            size_t b = a + (size_t)op.a[2] % (n - a + 1);
            std::fill(v.begin() + (long)a, v.begin() + (long)b, T(next));
            for (size_t i = a; i < b; ++i) put(x, i, next);
            ++next; break;
        }
        case CACHE: v.deallocate_page_cache(); v.allocate_page_cache(); break;
        case EXTERN: {
            if (!n) break;
            size_t blk = a / epb();
            v.flush();
            block* b = new block;
            b->read(*(v.begin() + (long)(blk * epb())).bid())->wait();
            if (op.a[2] % 2) (void)cv[a];  // clean page in the cache
            size_t hi = std::min(n, (blk + 1) * epb());
            for (size_t i = blk * epb(); i < hi; ++i) { b->elem[i - blk * epb()] = T(next); put(x, i, next++); }
            b->write(*(v.begin() + (long)(blk * epb())).bid())->wait();
            (v.begin() + (long)a).block_externally_updated();
            delete b; break;
        }
        case RECREATE: {
            if (cs->get("mode") == M_ERRORS) { if (filemode()) break; x.v->flush(); } // the destructor can only log errors
            delete x.v; x.v = NULL;
            if (filemode()) {
                sim::u64 want = n / epb() * sizeof(block) + n % epb() * sizeof(T);
                SIM_CHECK(x.f->size() == want, "file-size", "file has %llu bytes after the vector of %zu elements was destroyed, expected %llu", (u64)x.f->size(), n, want);
                if (op.a[2] % 2 && cs->get("ftype") != 3) { delete x.f; x.f = mkfile(x.fno); }
                x.v = op.a[3] % 2 ? new V(x.f, (typename V::size_type)-1, npages) : new V(x.f, n, npages);
            }
            else { size_t k = (size_t)op.a[1] % maxn; x.v = new V(k, npages); sim::NoPreempt np; x.m.clear(); x.m.resize(k); }
            break;
        }
        case COMPARE: {
            bool kn = true, eq, lt; { sim::NoPreempt np;
                for (size_t i = 0; i < x.m.size(); ++i) kn = kn && x.m[i].known;
                for (size_t i = 0; i < y.m.size(); ++i) kn = kn && y.m[i].known;
                std::vector<u64> p, q; for (size_t i = 0; i < x.m.size(); ++i) p.push_back(x.m[i].v); for (size_t i = 0; i < y.m.size(); ++i) q.push_back(y.m[i].v);
                eq = p == q; lt = p < q; }
            if (!kn) break;
            SIM_CHECK((v == *y.v) == eq && (v != *y.v) == !eq && (v < *y.v) == lt && (v >= *y.v) == !lt, "wrong-compare", "comparison of two vectors is wrong");
            break;
        }
        case FRONTBACK: if (!n) break;
            chkel(v.front(), x.m[0], 0, "front"); chkel(cv.back(), x.m[n - 1], n - 1, "back");
            v.back() = T(next); put(x, n - 1, next++); break;
        case CONTENT: { // a vector made of existing blocks
            if (filemode()) break;
            if (cs->get("mode") == M_ERRORS) x.v->flush(); // the destructor can only log errors
            delete x.v; x.v = new V((typename V::size_type)0, npages); { sim::NoPreempt np; x.m.clear(); }
            size_t k = (size_t)op.a[1] % (maxn + 1), nb = (k + epb() - 1) / epb();
            std::vector<typename block::bid_type> bids(nb);
            stxxl::block_manager::get_instance()->new_blocks(stxxl::striping(), bids.begin(), bids.end());
            x.v->set_content(bids.begin(), bids.end(), k); msize(x, k);
            block* b = new block;
            for (size_t i = 0; i < nb; ++i) {
                for (size_t j = i * epb(); j < (i + 1) * epb() && j < k; ++j) { b->elem[j - i * epb()] = T(next); put(x, j, next++); }
                b->write(bids[i])->wait();
            }
            delete b;
            break;
        }
        }
    }
    // leave the data in files of their own
    void exported(Obj& x, int no)
    {
        bool fpb = true, known = true;
        { sim::NoPreempt np; for (long i = 0; i < cs->get("nd", 1); ++i) fpb = fpb && cget(*cs, "d", i, "type") >= D_FPBS; for (size_t i = 0; i < x.m.size(); ++i) known = known && x.m[i].known; }
        if (filemode() || !fpb || !known || x.m.empty() || cs->get("mode") != M_NORMAL || !cs->get("export")) return;
        sim::probe("exported");
        x.v->resize(x.m.size(), true);
        size_t k = x.m.size(), nb = (size_t)(x.v->capacity() / epb());
        if (cs->get("export") == 1) x.v->flush();
        std::vector<typename block::bid_type> bids;
        for (size_t i = 0; i * epb() < k; ++i) bids.push_back(*(x.v->begin() + (long)(i * epb())).bid());
        if (nb != bids.size()) return; // blocks without data have no files
        char pre[40]; snprintf(pre, sizeof pre, "exp%d_", no);
        x.v->export_files(pre);
        delete x.v; x.v = NULL;
        std::vector<T> buf(epb());
        for (size_t i = 0; i < bids.size(); ++i) {
            char p[80]; snprintf(p, sizeof p, "/sim/%s%09zu", pre, i);
            size_t cnt = std::min(epb(), k - i * epb());
            SIM_CHECK(sim::vfs_stat(p).exists && sim::vfs_stat(p).size == cnt * sizeof(T), "export-size", "exported file %s has %llu bytes, expected %zu", p, (u64)sim::vfs_stat(p).size, cnt * sizeof(T));
            sim::vfs_read(p, 0, &buf[0], cnt * sizeof(T));
            for (size_t j = 0; j < cnt; ++j) chkel(buf[j], x.m[i * epb() + j], i * epb() + j, "exported file");
            remove(p);
        }
        stxxl::block_manager::get_instance()->delete_blocks(bids.begin(), bids.end()); // stay with the program
    }
    void go(const sim::Case& c)
    {
        cs = &c; next = 1; npages = (size_t)c.get("npages"); maxn = (size_t)c.get("maxblocks") * epb() + 3;
        for (int i = 0; i < 2; ++i) { o[i].f = NULL; o[i].fno = i; if (filemode()) o[i].f = mkfile(i); make(o[i], filemode() ? 0 : (size_t)c.get("n0") % maxn); msize(o[i], (size_t)o[i].v->size()); }
        for (size_t k = 0; k < c.ops.size(); ++k) { step(c.ops[k]); Obj& x = o[c.ops[k].a[0] % 2]; SIM_CHECK(x.v->size() == x.m.size(), "wrong-size", "after %s: size is %llu, expected %zu", opn[c.ops[k].code], (u64)x.v->size(), x.m.size()); }
        for (int i = 0; i < 2; ++i) { all(o[i], "final content"); }
        if (!cs->get("export")) for (int i = 0; i < 2; ++i) { o[i].v->flush(); disk(o[i], "on disk at the end"); }
        for (int i = 0; i < 2; ++i) exported(o[i], i);
        for (int i = 0; i < 2; ++i) { delete o[i].v; if (o[i].f) { if (cs->get("ftype") != 3) o[i].f->close_remove(); delete o[i].f; } }
    }
};
template <class V> void go(const sim::Case& c) { std::unique_ptr<Run<V> > r(new Run<V>); r->go(c); }

struct H : ContHarness
{
    const char* name() { return "vec"; }
    std::string describe(const sim::Op& o) { char b[120]; snprintf(b, sizeof b, "vector %ld: %s (%ld %ld %ld %ld)", o.a[0] % 2, o.code < NOPS ? opn[o.code] : "?", o.a[1], o.a[2], o.a[3], o.a[4]); return b; }
    void gen(sim::Rng& r, sim::Case& c, bool thorough)
    {
        c.set("cfg", r.range(0, 6)); c.set("npages", r.pick({ 1L, 1L, 2L, 2L, 3L, 5L })); c.set("maxblocks", r.pick({ 1L, 3L, 8L, 17L, 30L })); c.set("n0", (long)r.below(200));
        c.set("file", c.get("cfg") < 5 && r.chance(1, 4)); c.set("ftype", r.range(0, 3)); c.set("fdirect", r.range(0, 1));
        c.set("export", r.chance(1, 6) ? r.range(1, 2) : 0);
        if (c.get("export")) for (long i = 0; i < c.get("nd", 1); ++i) if (cget(c, "d", i, "type") < D_FPBS && c.get("mode") == M_NORMAL) { cset(c, "d", i, "type", r.chance(1, 2) ? D_FPBS : D_FPBM); }
        long n = r.range(3, thorough ? 120 : 40);
        unsigned mask = (unsigned)r.next() | 3u; // a subset of the operations per run: longer runs of the same kind
        for (long i = 0; i < n; ++i) {
            int op = (int)r.range(0, NOPS - 1);
            if (!(mask >> op & 1) && r.chance(7, 8)) op = r.chance(1, 2) ? SET : CGET;
            long big = (long)r.below(1000000);
            c.ops.push_back(sim::Op(op, r.chance(3, 4) ? 0 : 1, big, (long)r.below(1000), (long)r.below(1000), (long)r.below(1000)));
        }
    }
    void body(const sim::Case& c)
    {
        switch (c.get("cfg")) {
        case 0: go<stxxl::VECTOR_GENERATOR<Elem<512>, 1, 2, 4096, stxxl::striping, stxxl::lru>::result>(c); break;
        case 1: go<stxxl::VECTOR_GENERATOR<Elem<512>, 4, 2, 4096, stxxl::RC, stxxl::random>::result>(c); break;
        case 2: go<stxxl::VECTOR_GENERATOR<Elem<1024>, 2, 2, 4096, stxxl::RC, stxxl::lru>::result>(c); break;
        case 3: go<stxxl::VECTOR_GENERATOR<Elem<512>, 3, 2, 8192, stxxl::FR, stxxl::lru>::result>(c); break;
        case 4: go<stxxl::VECTOR_GENERATOR<Elem<4096>, 1, 2, 4096, stxxl::SR, stxxl::random>::result>(c); break;
        case 5: go<stxxl::VECTOR_GENERATOR<Elem<520>, 2, 2, 4096, stxxl::SR, stxxl::lru>::result>(c); break;  // padding at the end of every block
        default: go<stxxl::VECTOR_GENERATOR<Elem<48>, 4, 2, 4096, stxxl::RC, stxxl::lru>::result>(c); break;
        }
    }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
