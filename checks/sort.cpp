// External sorting of vector ranges (sort, ksort, stable_ksort) against the multiset of the range and its unchanged surroundings.
#include "cont.h"
#include "par.h"
#include <stxxl/vector>
#include <stxxl/sort>
#include <stxxl/ksort>
#include <stxxl/stable_ksort>
#include <stxxl/bits/algo/adaptor.h>
#include <stxxl/bits/common/is_sorted.h>
#include <stxxl/bits/io/create_file.h>
#include <algorithm>
#include <memory>
using namespace chk;
namespace {
enum { SORT, KSORT, STABLE, FILLR, TOUCH, RESIZE, RECREATE, NOPS };
const char* opn[] = { "sort", "ksort", "stable_ksort", "fill range", "touch elements", "resize", "destroy+recreate" };
enum { IDBITS = 24 };

template <unsigned N, class Key, int Shift>
struct Rec : Elem<N>
{
    typedef Key key_type;
    Rec() { } explicit Rec(u64 x) : Elem<N>(x) { }
    key_type key() const { return (key_type)(this->v >> Shift); }
    static Rec min_value() { return Rec(0); }
    static Rec max_value() { return Rec(~0ull); }
};
struct Base { virtual ~Base() { } virtual void go(const sim::Case&) = 0; };

template <class T, class V>
struct Run : Base
{
    typedef typename V::block_type block;
    struct Less
    {
        bool desc; explicit Less(bool d = false) : desc(d) { }
        bool operator () (const T& a, const T& b) const { return desc ? b.key() < a.key() : a.key() < b.key(); }
        T min_value() const { return desc ? T::max_value() : T::min_value(); }
        T max_value() const { return desc ? T::min_value() : T::max_value(); }
    };
    struct KeyX
    {
        typedef typename T::key_type key_type;
        key_type operator () (const T& a) const { return a.key(); }
        T min_value() const { return T::min_value(); }
        T max_value() const { return T::max_value(); }
    };
    const sim::Case* cs; V* v; stxxl::file* f; std::vector<u64> m; u64 next; sim::Rng r; size_t maxn; size_t npages;
    Run() : r(1) { }
    static size_t epb() { return block::size; }
    bool filemode() { return cs->get("file") != 0; }
    stxxl::file* mkfile()
    {
        long ty = cs->get("ftype");
        const char* impl = ty == 0 ? "syscall" : ty == 1 ? "linuxaio" : ty == 2 ? "mmap" : "memory";
        return stxxl::create_file(impl, "/sim/sortvec", stxxl::file::CREAT | stxxl::file::RDWR | (cs->get("fdirect") && ty < 2 ? stxxl::file::DIRECT : 0), 0);
    }
    u64 mk(u64 key) { return (key << IDBITS) | (next++ & ((1u << IDBITS) - 1)); }
    u64 gen1(long style, size_t i) // keys strictly between min_value() and max_value(), also after dropping low bits
    {
        const u64 lo = 1 << 12, top = (1ull << (64 - IDBITS)) - lo - lo;
        u64 k;
        switch (style % 7) {
        case 0: k = r.next() % top; break;
        case 1: k = r.below(5) * (top / 7); break;
        case 2: k = 77; break;
        case 3: k = i * 300; break;
        case 4: k = top - 1 - i * 300; break;
        case 5: k = (i % 13 + 1) * (top / 15); break;
        default: k = r.chance(9, 10) ? r.below(1000) : r.next() % top; break;
        }
        return mk(lo + k);
    }
    void refill(size_t a, size_t b, long style) { for (size_t i = a; i < b; ++i) { u64 x = gen1(style, i); (*v)[i] = T(x); sim::NoPreempt np; m[i] = x; } }
    void all(const char* how)
    {
        SIM_CHECK(v->size() == m.size(), "wrong-size", "%s: size is %llu, expected %zu", how, (u64)v->size(), m.size());
        const V& cv = *v;
        for (size_t i = 0; i < m.size(); ++i) {
            const T& e = cv[i]; sim::NoPreempt np;
            SIM_CHECK(e.v == m[i], "wrong-element", "%s: element %zu is %llx, expected %llx", how, i, e.v, m[i]);
            SIM_CHECK(e.ok(), "torn-element", "%s: element %zu has a damaged body", how, i);
        }
    }
    static u64 keyof(u64 x) { return (u64)T(x).key(); }
    struct ByKey { bool desc; bool operator () (u64 a, u64 b) const { u64 p = keyof(a), q = keyof(b); return desc ? q < p : p < q; } };
    void sorted(size_t a, size_t b, bool desc, bool stable, const char* how)
    {
        std::vector<u64> got(b - a), want; const V& cv = *v;
        for (size_t i = 0; i < m.size(); ++i) {
            const T& e = cv[i]; sim::NoPreempt np;
            SIM_CHECK(e.ok(), "torn-element", "%s: element %zu has a damaged body", how, i);
            if (i < a || i >= b) SIM_CHECK(e.v == m[i], "outside-changed", "%s [%zu,%zu): element %zu outside of the range is %llx, was %llx", how, a, b, i, e.v, m[i]);
            else got[i - a] = e.v;
        }
        sim::NoPreempt np;
        ByKey bk = { desc };
        want.assign(m.begin() + (long)a, m.begin() + (long)b);
        for (size_t i = 1; i < got.size(); ++i) SIM_CHECK(!bk(got[i], got[i - 1]), "not-sorted", "%s [%zu,%zu): element %zu is less than its predecessor", how, a, b, a + i);
        if (stable) {
            std::stable_sort(want.begin(), want.end(), bk);
            for (size_t i = 0; i < got.size(); ++i) SIM_CHECK(got[i] == want[i], "not-stable", "%s [%zu,%zu): element %zu is %llx, a stable sort puts %llx there", how, a, b, a + i, got[i], want[i]);
        }
        std::copy(got.begin(), got.end(), m.begin() + (long)a);
        std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
        SIM_CHECK(got == want, "not-permutation", "%s [%zu,%zu): the result is not a permutation of the input", how, a, b);
    }
    bool stable_fits(size_t a, size_t b, size_t M)
    {
        sim::NoPreempt np;
        size_t mb = M / block::raw_size, nd = (size_t)cs->get("nd", 1);
        if (mb < 4 * nd + 2) return false;
        size_t lg = 0; while ((2u << lg) <= mb - 4 * nd) ++lg;
        std::vector<size_t> cnt(1u << lg);
        for (size_t i = a; i < b; ++i) ++cnt[(size_t)(keyof(m[i]) >> (sizeof(typename T::key_type) * 8 - lg))];
        size_t lim = (mb - 2 * nd) / 2 * epb();
        for (size_t i = 0; i < cnt.size(); ++i) if (cnt[i] > lim) return false;
        return true;
    }
    void range(const sim::Op& op, size_t& a, size_t& b)
    {
        size_t n = m.size();
        a = (size_t)op.a[0] % (n + 1); b = a + (size_t)op.a[1] % (n - a + 1);
        switch (op.a[2] % 8) {
        case 0: case 1: a = 0; b = n; break;
        case 2: a = 0; break;
        case 3: b = n; break;
        case 4: a -= a % epb(); b = std::min(n, (b + epb() - 1) / epb() * epb()); break;
        case 5: a -= a % epb(); break;
        }
    }
    void step(const sim::Op& op)
    {
        size_t a, b; range(op, a, b);
        size_t minm = 2 + (size_t)op.a[4] % (op.a[3] % 4 == 0 ? 1 : op.a[3] % 4 == 1 ? 4 : op.a[3] % 4 == 2 ? 12 : 40);
        size_t M = minm * block::raw_size + (op.a[4] % 5 ? 0 : (size_t)op.a[4] % 4096);
        u64 before = stxxl::block_manager::get_instance()->get_current_allocation();
        char how[100]; snprintf(how, sizeof how, "%s with %zu blocks of memory", opn[op.code], M / block::raw_size);
        stxxl::SETTINGS::native_merge = op.a[3] % 2;
        switch (op.code) {
        case SORT: { bool d = op.a[4] % 3 == 0; stxxl::sort(v->begin() + (long)a, v->begin() + (long)b, Less(d), M); sorted(a, b, d, false, how); break; }
        case KSORT: if (op.a[4] % 2) stxxl::ksort(v->begin() + (long)a, v->begin() + (long)b, M); else stxxl::ksort(v->begin() + (long)a, v->begin() + (long)b, KeyX(), M); sorted(a, b, false, false, how); break;
        case STABLE:
            M += (4 * (size_t)cs->get("nd", 1) + (size_t)op.a[4] % 9) * block::raw_size;
            if (!stable_fits(a, b, M)) break;
            sim::probe("stable_ksort");
            stxxl::stable_ksort(v->begin() + (long)a, v->begin() + (long)b, M); sorted(a, b, false, true, how); break;
        case FILLR: refill(a, b, op.a[3]); break;
        case TOUCH: for (long k = 0; k < op.a[4] % 9 && a < b; ++k) { size_t i = a + (size_t)(op.a[3] * (k + 1)) % (b - a); if (op.a[4] % 2) refill(i, i + 1, op.a[3]); else { u64 x = (*v)[i].v; SIM_CHECK(x == m[i], "wrong-element", "element %zu is %llx, expected %llx", i, x, m[i]); } } break;
        case RESIZE: { size_t o = m.size(), n = (size_t)op.a[1] % maxn; v->resize(n); { sim::NoPreempt np; m.resize(n); } if (n > o) refill(o, n, op.a[3]); break; }
        case RECREATE:
            if (cs->get("mode") == M_ERRORS || !filemode()) break;
            delete v; v = NULL;
            if (op.a[4] % 2 && cs->get("ftype") != 3) { delete f; f = mkfile(); }
            v = new V(f, (typename V::size_type)-1, npages); all("after re-opening the file"); break;
        }
        if (op.code <= STABLE) { // the file of a vector holds its blocks, everything else has been given back
            u64 now = stxxl::block_manager::get_instance()->get_current_allocation();
            SIM_CHECK(now == before, "external-leak", "%s [%zu,%zu): %llu bytes of external memory were allocated before and %llu after", how, a, b, before, now);
            size_t eb = (size_t)(b - a) * sizeof(T);
            sim::probe(eb < M ? "in memory" : eb <= M / 2 * (M / block::raw_size) ? "external, one merge level" : "external, more");
        }
    }
    void go(const sim::Case& c)
    {
        cs = &c; next = 1; f = NULL; r = sim::Rng((u64)c.get("rs")); npages = (size_t)c.get("npages");
        maxn = (size_t)c.get("maxblocks") * epb() + 1;
        size_t n = (size_t)c.get("n0") % maxn; { sim::NoPreempt np; m.resize(n); }
        if (filemode()) { f = mkfile(); v = new V(f, n, npages); } else v = new V(n, npages);
        refill(0, n, c.get("style"));
        for (size_t k = 0; k < c.ops.size(); ++k) step(c.ops[k]);
        all("final content");
        delete v;
        if (f) {
            if (c.get("mode") != M_ERRORS && c.get("ftype") != 3) { delete f; f = mkfile(); }
            if (c.get("mode") != M_ERRORS) { v = new V(f, (typename V::size_type)-1, npages); all("in the file at the end"); delete v; }
            if (cs->get("ftype") != 3) f->close_remove();
            delete f;
        }
    }
};
template <class T, unsigned P, unsigned BS, class A, stxxl::pager_type Pager> struct Mk { typedef Run<T, typename stxxl::VECTOR_GENERATOR<T, P, 2, BS, A, Pager>::result> type; };
enum { NCFG = 7 };
Base* make_run(long k)
{
    switch (k) {
    case 0: return new Mk<Rec<512, u64, IDBITS>, 1, 4096, stxxl::striping, stxxl::lru>::type();
    case 1: return new Mk<Rec<1024, u64, IDBITS>, 2, 4096, stxxl::RC, stxxl::lru>::type();
    case 2: return new Mk<Rec<256, unsigned, 32>, 1, 4096, stxxl::RC, stxxl::random>::type();
    case 3: return new Mk<Rec<520, u64, IDBITS>, 2, 4096, stxxl::FR, stxxl::lru>::type();
    case 4: return new Mk<Rec<1024, u64, 0>, 1, 8192, stxxl::SR, stxxl::lru>::type();
    case 5: return new Mk<Rec<2048, u64, IDBITS>, 1, 4096, stxxl::RC, stxxl::random>::type();
    default: return new Mk<Rec<512, unsigned, 32>, 3, 4096, stxxl::RC, stxxl::lru>::type();
    }
}
struct H : ContHarness
{
    const char* name() { return "sort"; }
    std::string describe(const sim::Op& o) { char s[120]; snprintf(s, sizeof s, "%s (%ld %ld %ld %ld %ld)", o.code < NOPS ? opn[o.code] : "?", o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]); return s; }
    void gen(sim::Rng& r, sim::Case& c, bool thorough)
    {
        c.set("cfg", r.range(0, NCFG - 1)); c.set("npages", r.pick({ 1L, 2L, 4L })); c.set("maxblocks", r.pick({ 2L, 8L, 20L, 40L, thorough ? 90L : 40L }));
        c.set("n0", (long)r.below(100000)); c.set("rs", (long)r.below(1u << 30)); c.set("style", r.range(0, 6));
        c.set("file", c.get("cfg") != 3 && r.chance(1, 6)); c.set("ftype", r.range(0, 3)); c.set("fdirect", r.range(0, 1));
        gen_par(r, c);
        long n = r.range(1, thorough ? 12 : 6);
        for (long i = 0; i < n; ++i) {
            int op = (int)r.range(0, NOPS - 1);
            if (r.chance(1, 3)) op = r.pick({ (int)SORT, (int)KSORT });
            c.ops.push_back(sim::Op(op, (long)r.below(100000), (long)r.below(100000), (long)r.below(1000), (long)r.below(1000), (long)r.below(1000)));
        }
    }
    void body(const sim::Case& c) { setup_par(c); std::unique_ptr<Base> r(make_run(c.get("cfg"))); r->go(c); }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
