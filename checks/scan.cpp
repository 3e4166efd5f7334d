// Scanning algorithms and streaming adaptors on vectors: every element of the range once and in order, everything else untouched.
#include "cont.h"
#include "par.h"
#include <stxxl/vector>
#include <stxxl/scan>
#include <stxxl/stream>
#include <stxxl/random_shuffle>
#include <stxxl/bits/stream/unique.h>
#include <stxxl/bits/stream/choose.h>
#include <stxxl/bits/io/create_file.h>
#include <algorithm>
#include <memory>
using namespace chk;
namespace {
enum { FOREACH, FOREACHM, GENERATE, FIND, SHUFFLE, STREAMIFY, MAT, MATLIMIT, COPYRANGE, ADAPT, TOUCH, RESIZE, FRESH, FLUSH, NOPS };
const char* opn[] = { "for_each", "for_each_m", "generate", "find", "random_shuffle", "streamify", "materialize", "materialize up to", "streamify+materialize", "adaptors", "touch elements", "resize", "destroy+recreate", "flush" };
struct Base { virtual ~Base() { } virtual void go(const sim::Case&) = 0; };

template <class T, class V>
struct Run : Base
{
    typedef typename V::block_type block;
    typedef typename V::iterator It;
    typedef typename V::const_iterator CIt;
    const sim::Case* cs; V* v; V* v2; stxxl::file* f; std::vector<u64> m, m2; u64 next; sim::Rng r; size_t maxn; size_t npages; const char* how;
    Run() : r(1) { }
    static size_t epb() { return block::size; }
    bool filemode() { return cs->get("file") != 0; }
    stxxl::file* mkfile()
    {
        long ty = cs->get("ftype");
        const char* impl = ty == 0 ? "syscall" : ty == 1 ? "linuxaio" : ty == 2 ? "mmap" : "memory";
        return stxxl::create_file(impl, "/sim/scanvec", stxxl::file::CREAT | stxxl::file::RDWR | (cs->get("fdirect") && ty < 2 ? stxxl::file::DIRECT : 0), 0);
    }
    // visits the range element by element
    struct Visit
    {
        const std::vector<u64>* m; size_t* pos; size_t end; const char* how; int write; u64* next; std::vector<u64>* mm;
        void see(const T& e)
        {
            sim::NoPreempt np;
            SIM_CHECK(*pos < end, "visited-too-often", "%s: more elements visited than the range has", how);
            u64 w = (*m)[*pos];
            if (w) {
                SIM_CHECK(e.v == w, "wrong-element", "%s: element %zu is %llu, expected %llu", how, *pos, e.v, w);
                SIM_CHECK(e.ok(), "torn-element", "%s: element %zu has a damaged body", how, *pos);
            }
        }
        void operator () (const T& e) { see(e); ++*pos; }
    };
    struct Mutate : Visit
    {
        void operator () (T& e)
        {
            this->see(e);
            if (this->write) { u64 x = (*this->next)++; e = T(x); sim::NoPreempt np; (*this->mm)[*this->pos] = x; }
            ++*this->pos;
        }
    };
    struct Gen
    {
        typedef T value_type;
        size_t* pos; size_t end; u64* next; std::vector<u64>* mm; const char* how;
        T operator () ()
        {
            u64 x = (*next)++; sim::NoPreempt np;
            SIM_CHECK(*pos < end, "generated-too-often", "%s: the generator is called more often than the range has elements", how);
            (*mm)[(*pos)++] = x; return T(x);
        }
    };
    struct Src // input stream of n new values
    {
        typedef T value_type; u64 first; size_t n, i; T cur;
        Src(u64 f_, size_t n_) : first(f_), n(n_), i(0) { if (n) cur = T(f_); }
        bool empty() const { return i == n; }
        const T& operator * () const { SIM_CHECK(i < n, "read-past-end", "the input stream is read beyond its end"); return cur; }
        const T* operator -> () const { return &**this; }
        Src& operator ++ () { SIM_CHECK(i < n, "read-past-end", "the input stream is advanced beyond its end"); ++i; if (i < n) cur = T(first + i); return *this; }
    };
    void check(V* vv, const std::vector<u64>& mm, const char* what)
    {
        SIM_CHECK(vv->size() == mm.size(), "wrong-size", "%s: size is %llu, expected %zu", what, (u64)vv->size(), mm.size());
        const V& cv = *vv;
        for (size_t i = 0; i < mm.size(); ++i) {
            const T& e = cv[i]; sim::NoPreempt np;
            if (!mm[i]) continue;
            SIM_CHECK(e.v == mm[i], "wrong-element", "%s: element %zu is %llu, expected %llu", what, i, e.v, mm[i]);
            SIM_CHECK(e.ok(), "torn-element", "%s: element %zu has a damaged body", what, i);
        }
    }
    template <class S> size_t read_stream(S& s, size_t a, size_t b, size_t stop)
    {
        size_t i = a;
        while (!s.empty() && i < stop) {
            const T& e = *s;
            { sim::NoPreempt np;
                SIM_CHECK(i < b, "visited-too-often", "%s: the stream is longer than its range", how);
                if (m[i]) { SIM_CHECK(e.v == m[i] && s->v == e.v, "wrong-element", "%s: element %zu is %llu, expected %llu", how, i, e.v, m[i]); SIM_CHECK(e.ok(), "torn-element", "%s: element %zu has a damaged body", how, i); } }
            ++s; ++i;
        }
        if (stop >= b) SIM_CHECK(i == b && s.empty(), "visited-too-seldom", "%s: the stream ends at element %zu of [%zu,%zu)", how, i, a, b);
        return i;
    }
    void range(const sim::Op& op, size_t n, size_t& a, size_t& b)
    {
        a = (size_t)op.a[0] % (n + 1); b = a + (size_t)op.a[1] % (n - a + 1);
        switch (op.a[2] % 9) {
        case 0: case 1: a = 0; b = n; break;
        case 2: a = 0; break;
        case 3: b = n; break;
        case 4: a -= a % epb(); b = std::min(n, (b + epb() - 1) / epb() * epb()); break;
        case 5: a -= a % epb(); break;
        case 6: b = std::min(b, a + epb() / 2); break;
        case 7: b -= b % epb(); if (b < a) b = a; break;
        }
    }
    void wrote(size_t a, size_t b, u64 first) { sim::NoPreempt np; for (size_t i = a; i < b; ++i) m[i] = first + (i - a); }
    void visits(size_t pos, size_t b) { SIM_CHECK(pos == b, "visited-too-seldom", "%s: stopped at element %zu of a range ending at %zu", how, pos, b); }
    void step(const sim::Op& op)
    {
        size_t a, b, n = m.size(); range(op, n, a, b);
        char hb[100]; snprintf(hb, sizeof hb, "%s [%zu,%zu)", opn[op.code], a, b); how = hb;
        stxxl::int_type nb = op.a[3] % 3 == 0 ? 0 : 1 + op.a[3] % 7;
        It ia = v->begin() + (long)a, ib = v->begin() + (long)b;
        const V& cv = *v;
        switch (op.code) {
        case FOREACH: {
            size_t pos = a; Visit f0 = { &m, &pos, b, how, 0, &next, &m };
            if (op.a[4] % 2) stxxl::for_each(ia, ib, f0, nb); else stxxl::for_each(cv.begin() + (long)a, cv.begin() + (long)b, f0, nb);
            visits(pos, b); break;
        }
        case FOREACHM: {
            size_t pos = a; Mutate f0; f0.m = &m; f0.pos = &pos; f0.end = b; f0.how = how; f0.write = op.a[4] % 4 != 0; f0.next = &next; f0.mm = &m;
            stxxl::for_each_m(ia, ib, f0, nb); visits(pos, b); break;
        }
        case GENERATE: { size_t pos = a; Gen g = { &pos, b, &next, &m, how }; stxxl::generate(ia, ib, g, nb); visits(pos, b); break; }
        case FIND: {
            for (size_t i = a; i < b; ++i) if (!m[i]) return; // unknown contents
            u64 x = ~0ull; size_t want = b;
            if (a < b && op.a[4] % 4) { want = a + (size_t)op.a[4] % (b - a); x = m[want]; for (size_t i = a; i < want; ++i) if (m[i] == x) { want = i; break; } }
            else if (n && op.a[4] % 8) { x = m[(size_t)op.a[4] % n]; for (size_t i = a; i < b; ++i) if (m[i] == x) { want = i; break; } }
            size_t got = op.a[4] % 2 ? (size_t)(stxxl::find(ia, ib, T(x), nb) - v->begin()) : (size_t)(stxxl::find(cv.begin() + (long)a, cv.begin() + (long)b, T(x), nb) - cv.begin());
            SIM_CHECK(got == want, "wrong-position", "%s: found at %zu, expected %zu", how, got, want);
            break;
        }
        case SHUFFLE: {
            for (size_t i = a; i < b; ++i) if (!m[i]) return;
            stxxl::srandom_number32((unsigned)op.a[4] + 1); stxxl::random_number<> rn((unsigned)op.a[4] + 1);
            size_t M = (size_t)(op.a[3] % 30) * block::raw_size + (size_t)op.a[4];
            u64 before = stxxl::block_manager::get_instance()->get_current_allocation();
            if (op.a[4] % 5) stxxl::random_shuffle(ia, ib, rn, M); else stxxl::random_shuffle(ia, ib, M);
            SIM_CHECK(stxxl::block_manager::get_instance()->get_current_allocation() == before, "external-leak", "%s: external memory is not given back", how);
            std::vector<u64> got(b - a), want;
            for (size_t i = 0; i < n; ++i) {
                const T& e = cv[i]; sim::NoPreempt np;
                if (i >= a && i < b) { SIM_CHECK(e.ok(), "torn-element", "%s: element %zu has a damaged body", how, i); got[i - a] = e.v; }
                else if (m[i]) SIM_CHECK(e.v == m[i] && e.ok(), "outside-changed", "%s: element %zu outside of the range is %llu, was %llu", how, i, e.v, m[i]);
            }
            sim::NoPreempt np;
            want.assign(m.begin() + (long)a, m.begin() + (long)b);
            std::copy(got.begin(), got.end(), m.begin() + (long)a);
            std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
            SIM_CHECK(got == want, "not-permutation", "%s: the result is not a permutation of the range", how);
            sim::probe("random_shuffle");
            break;
        }
        case STREAMIFY: {
            size_t stop = op.a[4] % 3 ? b + 1 : a + (size_t)op.a[4] % (b - a + 1);
            unsigned k = (unsigned)nb;
            switch (op.a[4] % 4) {
            case 0: { typename stxxl::stream::streamify_traits<It>::stream_type s(ia, ib, k); if (op.a[4] % 8 == 0) { typename stxxl::stream::streamify_traits<It>::stream_type t(s); read_stream(t, a, b, stop); } else read_stream(s, a, b, stop); break; }
            case 1: { typename stxxl::stream::streamify_traits<CIt>::stream_type s = stxxl::stream::streamify(cv.begin() + (long)a, cv.begin() + (long)b, k); read_stream(s, a, b, stop); break; }
            case 2: { stxxl::stream::vector_iterator2stream_sr<It> s = stxxl::stream::streamify_sr(ia, ib, k); if (op.a[4] % 8 == 2) { stxxl::stream::vector_iterator2stream_sr<It> t(s); read_stream(t, a, b, stop); } else read_stream(s, a, b, stop); break; }
            default: { stxxl::stream::vector_iterator2stream_sr<CIt> s = stxxl::stream::streamify_sr(cv.begin() + (long)a, cv.begin() + (long)b, k); read_stream(s, a, b, stop); break; }
            }
            break;
        }
        case MAT: {
            u64 x = next; next += b - a; Src s(x, b - a); It e = op.a[4] % 2 ? stxxl::stream::materialize(s, ia, (unsigned)nb) : stxxl::stream::materialize(s, ia);
            SIM_CHECK((size_t)(e - v->begin()) == b && s.empty(), "wrong-position", "%s: returned position %zu", how, (size_t)(e - v->begin())); wrote(a, b, x); break;
        }
        case MATLIMIT: { // the shorter of stream and target ends it
            size_t k = (size_t)op.a[4] % (2 * (b - a) + 2), c = std::min(k, b - a);
            u64 x = next; next += k; Src s(x, k); It e = stxxl::stream::materialize(s, ia, ib, (unsigned)nb);
            SIM_CHECK((size_t)(e - v->begin()) == a + c && s.i == c, "wrong-position", "%s: %zu elements, returned position %zu, %zu elements taken from the stream", how, k, (size_t)(e - v->begin()), s.i); wrote(a, a + c, x); break;
        }
        case COPYRANGE: { // from the other vector
            size_t c = m2.size(), p = (size_t)op.a[4] % (c + 1), k = std::min(b - a, c - p);
            if (op.a[4] % 3 == 0) {
                std::copy(v2->begin() + (long)p, v2->begin() + (long)(p + k), ia);
            }
            else {
                typename stxxl::stream::streamify_traits<It>::stream_type s = stxxl::stream::streamify(v2->begin() + (long)p, v2->begin() + (long)(p + k), (unsigned)nb);
                It e = stxxl::stream::materialize(s, ia, (unsigned)(op.a[4] % 5));
                SIM_CHECK((size_t)(e - v->begin()) == a + k, "wrong-position", "%s: returned position", how);
            }
            sim::NoPreempt np; std::copy(m2.begin() + (long)p, m2.begin() + (long)(p + k), m.begin() + (long)a);
            break;
        }
        case ADAPT: adapt(op, a, b, nb); break;
        case TOUCH: for (long k = 0; k < op.a[4] % 9 && a < b; ++k) { size_t i = a + (size_t)(op.a[3] * (k + 1)) % (b - a); if (op.a[4] % 2) { u64 x = next++; (*v)[i] = T(x); sim::NoPreempt np; m[i] = x; } else { u64 x = op.a[4] % 4 ? (*v)[i].v : cv[i].v; SIM_CHECK(!m[i] || x == m[i], "wrong-element", "element %zu is %llu, expected %llu", i, x, m[i]); } } break;
        case RESIZE: { size_t k = (size_t)op.a[1] % maxn; v->resize(k); sim::NoPreempt np; m.resize(k); break; }
        case FRESH:
            if (filemode()) { if (cs->get("mode") == M_ERRORS) break; delete v; if (op.a[4] % 2 && cs->get("ftype") != 3) { delete f; f = mkfile(); } v = new V(f, (typename V::size_type)-1, npages); }
            else { size_t k = (size_t)op.a[1] % maxn; delete v; v = new V(k, npages); sim::NoPreempt np; m.assign(k, 0); }
            break;
        case FLUSH: if (op.a[4] % 3) v->flush(); else { std::swap(v, v2); std::swap(m, m2); if (filemode()) { std::swap(v, v2); std::swap(m, m2); } } break;
        }
    }
    struct Double { typedef u64 value_type; u64 operator () (const T& a) const { return a.v * 2; } };
    struct Plus { typedef u64 value_type; u64 operator () (const T& a, u64 b) const { return a.v + b; } };
    struct Plus3 { typedef u64 value_type; u64 operator () (u64 a, u64 b, u64 c) const { return a + b * 3 + c * 7; } };
    struct Third { u64 operator () (u64 x) const { return x / 3; } };
    struct SameThird { bool operator () (u64 a, u64 b) const { return a / 3 == b / 3; } };
    typedef stxxl::stream::iterator2stream<std::vector<u64>::iterator> IS;
    template <class S> void expect(S& s, const std::vector<u64>& w, const char* what)
    {
        size_t i = 0;
        while (!s.empty()) { SIM_CHECK(i < w.size(), "visited-too-often", "%s %s: the stream is longer than %zu elements", how, what, w.size()); u64 x = (u64)*s; SIM_CHECK(x == w[i], "wrong-element", "%s %s: element %zu is %llu, expected %llu", how, what, i, x, w[i]); ++s; ++i; }
        SIM_CHECK(i == w.size(), "visited-too-seldom", "%s %s: the stream ends after %zu of %zu elements", how, what, i, w.size());
    }
    void adapt(const sim::Op& op, size_t a, size_t b, stxxl::int_type nb)
    {
        for (size_t i = a; i < b; ++i) if (!m[i]) return;
        typedef typename stxxl::stream::streamify_traits<CIt>::stream_type VS;
        const V& cv = *v; size_t k = (size_t)op.a[4] % (2 * (b - a) + 2);
        std::vector<u64> o(k), w; { sim::NoPreempt np; for (size_t i = 0; i < k; ++i) o[i] = op.a[3] % 3 ? r.below(1 + (u64)op.a[3] % 40) : i; }
        VS s(cv.begin() + (long)a, cv.begin() + (long)b, (unsigned)nb);
        IS t = stxxl::stream::streamify(o.begin(), o.end());
        switch (op.a[3] % 6) {
        case 0: { for (size_t i = a; i < b; ++i) w.push_back(m[i] * 2); Double d; stxxl::stream::transform<Double, VS> tr(d, s); expect(tr, w, "transform"); break; }
        case 1: { for (size_t i = a; i < b && i - a < k; ++i) w.push_back(m[i] + o[i - a]); Plus d; stxxl::stream::transform<Plus, VS, IS> tr(d, s, t); expect(tr, w, "transform (2 streams)"); break; }
        case 2: { w = o; w.erase(std::unique(w.begin(), w.end()), w.end()); stxxl::stream::unique<IS> u(t); expect(u, w, "unique"); break; }
        case 3: { for (size_t i = 0; i < k; ++i) if (!i || o[i] / 3 != o[i - 1] / 3) w.push_back(o[i]); SameThird p; stxxl::stream::unique<IS, SameThird> u(t, p); expect(u, w, "unique (predicate)"); break; }
        case 4: {
            typedef stxxl::stream::make_tuple<VS, IS> MT; MT mt(s, t); stxxl::stream::choose<MT, 2> c(mt);
            w.assign(o.begin(), o.begin() + (long)std::min(k, b - a)); expect(c, w, "make_tuple, choose"); break;
        }
        default: {
            typedef stxxl::stream::transform<Double, VS> TR; Double d; TR tr(d, s); IS t2 = stxxl::stream::streamify(o.begin(), o.end());
            for (size_t i = a; i < b && i - a < k; ++i) w.push_back(m[i] * 2 + o[i - a] * 3 + o[i - a] * 7);
            Plus3 p; stxxl::stream::transform<Plus3, TR, IS, IS> t3(p, tr, t, t2); expect(t3, w, "transform (3 streams)"); break;
        }
        }
    }
    void go(const sim::Case& c)
    {
        cs = &c; next = 1; f = NULL; r = sim::Rng((u64)c.get("rs")); npages = (size_t)c.get("npages");
        maxn = (size_t)c.get("maxblocks") * epb() + 1;
        size_t n = (size_t)c.get("n0") % maxn, n2 = (size_t)c.get("n2") % maxn; { sim::NoPreempt np; m.resize(n); m2.resize(n2); }
        if (filemode()) { f = mkfile(); v = new V(f, n, npages); } else v = new V(n, npages);
        v2 = new V(n2, npages);
        if (c.get("fill")) for (size_t i = 0; i < n; ++i) { (*v)[i] = T(next); m[i] = next++; }
        for (size_t i = 0; i < n2; ++i) { (*v2)[i] = T(next); m2[i] = next++; }
        for (size_t k = 0; k < c.ops.size(); ++k) { step(c.ops[k]); if (c.get("chk")) check(v, m, opn[c.ops[k].code]); }
        check(v, m, "final content"); check(v2, m2, "final content of the other vector");
        delete v2; delete v;
        if (f) {
            if (c.get("mode") != M_ERRORS && c.get("ftype") != 3) { delete f; f = mkfile(); }
            if (c.get("mode") != M_ERRORS) { v = new V(f, (typename V::size_type)-1, npages); check(v, m, "in the file at the end"); delete v; }
            if (cs->get("ftype") != 3) f->close_remove();
            delete f;
        }
    }
};
template <class T, unsigned P, unsigned BS, class A, stxxl::pager_type Pager> struct Mk { typedef Run<T, typename stxxl::VECTOR_GENERATOR<T, P, 2, BS, A, Pager>::result> type; };
enum { NCFG = 6 };
Base* make_run(long k)
{
    switch (k) {
    case 0: return new Mk<Elem<512>, 1, 4096, stxxl::striping, stxxl::lru>::type();
    case 1: return new Mk<Elem<1024>, 2, 4096, stxxl::RC, stxxl::lru>::type();
    case 2: return new Mk<Elem<256>, 3, 4096, stxxl::RC, stxxl::random>::type();
    case 3: return new Mk<Elem<520>, 2, 4096, stxxl::FR, stxxl::lru>::type();
    case 4: return new Mk<Elem<2048>, 1, 8192, stxxl::SR, stxxl::lru>::type();
    default: return new Mk<Elem<4096>, 4, 4096, stxxl::RC, stxxl::random>::type();
    }
}
struct H : ContHarness
{
    const char* name() { return "scan"; }
    std::string describe(const sim::Op& o) { char s[120]; snprintf(s, sizeof s, "%s (%ld %ld %ld %ld %ld)", o.code < NOPS ? opn[o.code] : "?", o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]); return s; }
    void gen(sim::Rng& r, sim::Case& c, bool thorough)
    {
        c.set("cfg", r.range(0, NCFG - 1)); c.set("npages", r.pick({ 1L, 2L, 4L })); c.set("maxblocks", r.pick({ 2L, 8L, 20L, thorough ? 60L : 30L }));
        c.set("n0", (long)r.below(100000)); c.set("n2", (long)r.below(100000)); c.set("rs", (long)r.below(1u << 30)); c.set("fill", r.chance(2, 3)); c.set("chk", r.chance(1, 2));
        c.set("file", c.get("cfg") != 3 && r.chance(1, 6)); c.set("ftype", r.range(0, 3)); c.set("fdirect", r.range(0, 1));
        gen_par(r, c);
        long n = r.range(1, thorough ? 16 : 9);
        for (long i = 0; i < n; ++i) c.ops.push_back(sim::Op((int)r.range(0, NOPS - 1), (long)r.below(100000), (long)r.below(100000), (long)r.below(1000), (long)r.below(1000), (long)r.below(1000)));
    }
    void body(const sim::Case& c) { setup_par(c); std::unique_ptr<Base> r(make_run(c.get("cfg"))); r->go(c); }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
