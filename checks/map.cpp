// stxxl::map (btree) against std::map: all lookups, iteration in both directions, live iterators, bulk construction, swap.
#define STXXL_DEFAULT_BLOCK_SIZE(type) (32 * 1024)
#include "cont.h"
#include <stxxl/map>
#include <limits>
#include <map>
#include <memory>
using namespace chk;
namespace {
enum { INSERT, INSRANGE, ASSIGN, READIDX, FIND, COUNT, LOWER, UPPER, EQRANGE, ERASEK, ERASEI, ERASER, CLEAR, SCAN, WRITESCAN, SWAP, RECREATE, PREFETCH, HOLD, COMPARE, RUNINS, RUNERASE, STATS, NOPS };
const char* opn[] = { "insert", "insert range", "operator[] =", "operator[] read", "find", "count", "lower_bound", "upper_bound", "equal_range", "erase key", "erase iterator", "erase range", "clear", "scan", "scan and write",
                      "swap", "destroy+recreate", "toggle prefetching", "hold an iterator", "compare", "insert a run of keys", "erase a run of keys", "statistics" };

template <unsigned N> struct Key
{
    u64 k; u64 w[N / 8 - 1];
    Key() { }
    Key(u64 x) : k(x) { for (unsigned i = 0; i < N / 8 - 1; ++i) w[i] = x * 17 + i; }
    bool ok() const { for (unsigned i = 0; i < N / 8 - 1; ++i) if (w[i] != k * 17 + i) return false; return true; }
    bool operator == (const Key& o) const { return k == o.k; }
    bool operator != (const Key& o) const { return k != o.k; }
    bool operator < (const Key& o) const { return k < o.k; }
};
template <> struct Key<8>
{
    u64 k;
    Key() { }
    Key(u64 x) : k(x) { }
    bool ok() const { return true; }
    bool operator == (const Key& o) const { return k == o.k; }
    bool operator != (const Key& o) const { return k != o.k; }
    bool operator < (const Key& o) const { return k < o.k; }
};
template <unsigned N> std::ostream& operator << (std::ostream& o, const Key<N>& k) { return o << k.k; }
template <unsigned N> struct Up { bool operator () (const Key<N>& a, const Key<N>& b) const { return a.k < b.k; } static Key<N> max_value() { return Key<N>(~0ull); } bool lt(u64 a, u64 b) const { return a < b; } };
template <unsigned N> struct Down { bool operator () (const Key<N>& a, const Key<N>& b) const { return a.k > b.k; } static Key<N> max_value() { return Key<N>(0); } bool lt(u64 a, u64 b) const { return a > b; } };

struct RunBase { virtual ~RunBase() { } virtual void go(const sim::Case& c) = 0; };

template <unsigned KN, unsigned DN, class C, class A> struct Run : RunBase
{
    typedef Key<KN> K; typedef Elem<DN> D;
    typedef stxxl::map<K, D, C, 4096, 4096, A> M;
    typedef typename M::iterator It; typedef typename M::const_iterator CIt;
    struct Less { bool operator () (u64 a, u64 b) const { return C().lt(a, b); } };
    typedef std::map<u64, u64, Less> Model; typedef typename Model::iterator MIt;
    struct Held { It it; CIt cit; bool konst, atend; u64 key; int obj; };
    enum { NHELD = 4 };
    M* mp[2]; Model md[2]; const sim::Case* cs; u64 next; size_t maxn; u64 kr; Held* held[NHELD]; unsigned long maxsz;

    std::pair<K, D> val(u64 k) { return std::pair<K, D>(K(k), D(next++)); }
    void chk1(const K& k, const D& d, u64 ek, u64 ev, const char* how)
    {
        sim::NoPreempt np;
        SIM_CHECK(k.k == ek, "wrong-key", "%s: key is %llu, expected %llu", how, (u64)k.k, ek);
        SIM_CHECK(d.v == ev, "wrong-value", "%s: value of key %llu is %llu, expected %llu", how, ek, (u64)d.v, ev);
        SIM_CHECK(k.ok() && d.ok(), "torn-element", "%s: element with key %llu is damaged", how, ek);
    }
    template <class I, class E> void chkit(I it, const E& end, Model& m, MIt e, const char* how)
    {
        SIM_CHECK((it == end) == (e == m.end()), "wrong-position", "%s: %s", how, it == end ? "end() although there is such an element" : "an element although there is none");
        if (e != m.end()) { chk1((*it).first, (*it).second, e->first, e->second, how); chk1(it->first, it->second, e->first, e->second, how); }
    }
    M* make(int i, long how, long a, long b)
    {
        unsigned nc = (unsigned)(cs->get("nc") * 4096 + a % 100), lc = (unsigned)(cs->get("lc") * 4096);
        md[i].clear();
        if (how % 3 == 0) return how % 2 ? new M(nc, lc) : new M(C(), nc, lc);
        std::vector<std::pair<K, D> > src; bool sorted = how % 3 == 1;
        size_t n = (size_t)b % (maxn + 1); u64 k = 0;
        for (size_t j = 0; j < n; ++j) {
            if (sorted) k += (u64)(a + j * j) % 4; else k = (u64)(a + j * 7919 * (u64)b) % kr;
            u64 kk = C().lt(1, 2) ? k + 1 : 1000000 - k;
            if (!sorted) kk = k + 1;
            src.push_back(val(kk));
        }
        if (sorted) for (size_t j = 0; j < n; ++j) md[i].insert(std::make_pair(src[j].first.k, src[j].second.v));
        else for (size_t j = 0; j < n; ++j) md[i].insert(std::make_pair(src[j].first.k, src[j].second.v));
        double nf = 0.5 + (double)(a % 6) / 10.0, lf = 0.5 + (double)(b % 6) / 10.0;
        if (how % 2) return new M(src.begin(), src.end(), nc, lc, sorted, nf, lf);
        return new M(src.begin(), src.end(), C(), nc, lc, sorted, nf, lf);
    }
    void drop_held(int o, bool all, u64 key = 0)
    {
        for (int i = 0; i < NHELD; ++i) if (held[i] && held[i]->obj == o && (all || (!held[i]->atend && held[i]->key == key))) { delete held[i]; held[i] = NULL; }
    }
    void chkheld(const char* how)
    {
        for (int i = 0; i < NHELD; ++i) if (held[i]) {
            Held& h = *held[i]; Model& m = md[h.obj]; char s[100]; snprintf(s, sizeof s, "held iterator after %s", how);
            if (h.atend) SIM_CHECK(h.konst ? h.cit == const_cast<const M*>(mp[h.obj])->end() : h.it == mp[h.obj]->end(), "wrong-position", "%s: a held end() is no longer end()", s);
            else if (h.konst) chkit(h.cit, const_cast<const M*>(mp[h.obj])->end(), m, m.find(h.key), s);
            else chkit(h.it, mp[h.obj]->end(), m, m.find(h.key), s);
        }
    }
    void scan(M& x, Model& m, long a)
    {
        const M& c = x; size_t n = 0; MIt e = m.begin();
        switch (a % 5) {
        case 0: for (It it = x.begin(); it != x.end(); ++it, ++e, ++n) { SIM_CHECK(n < m.size(), "wrong-size", "iteration goes on after %zu elements", n); chk1(it->first, it->second, e->first, e->second, "iteration"); } break;
        case 1: for (CIt it = c.begin(); it != c.end(); it++, ++e, ++n) { SIM_CHECK(n < m.size(), "wrong-size", "iteration goes on after %zu elements", n); chk1(it->first, it->second, e->first, e->second, "const iteration"); } break;
        case 2: { It it = x.end(); while (it != x.begin()) { SIM_CHECK(n < m.size(), "wrong-size", "reverse iteration goes on after %zu elements", n); --it; if (n == 0) e = m.end(); --e; ++n; chk1(it->first, it->second, e->first, e->second, "backward iteration"); } break; }
        case 3: { typename Model::reverse_iterator r = m.rbegin(); for (typename M::reverse_iterator it = x.rbegin(); it != x.rend(); ++it, ++r, ++n) { SIM_CHECK(n < m.size(), "wrong-size", "reverse iteration goes on after %zu elements", n); chk1(it->first, it->second, r->first, r->second, "reverse_iterator"); } break; }
        default: { CIt it = c.end(); while (it != c.begin()) { SIM_CHECK(n < m.size(), "wrong-size", "reverse iteration goes on after %zu elements", n); it--; if (n == 0) e = m.end(); --e; ++n; chk1(it->first, it->second, e->first, e->second, "const backward iteration"); } break; }
        }
        SIM_CHECK(n == m.size(), "wrong-size", "iteration %ld visits %zu of %zu elements", a % 5, n, m.size());
    }
    void ins(int xi, u64 k, long how)
    {
        M& x = *mp[xi]; Model& m = md[xi];
        if (m.size() >= maxn && !m.count(k)) return;
        std::pair<K, D> v = val(k); bool fresh; { sim::NoPreempt np; fresh = m.insert(std::make_pair(k, v.second.v)).second; }
        if (how % 3 == 0) { It it = x.insert(x.end(), v); chkit(it, x.end(), m, m.find(k), "insert with hint"); }
        else if (how % 3 == 1) {
            std::pair<It, bool> r = x.insert(v);
            SIM_CHECK(r.second == fresh, "wrong-result", "insert of key %llu reports %s", k, r.second ? "a new element although the key exists" : "that the key exists although it does not");
            chkit(r.first, x.end(), m, m.find(k), "insert");
        }
        else { x[K(k)] = v.second; m[k] = v.second.v; }
    }
    void era(int xi, u64 k, long how)
    {
        M& x = *mp[xi]; Model& m = md[xi]; size_t n = m.count(k);
        drop_held(xi, false, k);
        if (how % 2 && n) { x.erase(x.find(K(k))); m.erase(k); return; }
        u64 r = x.erase(K(k)); SIM_CHECK(r == n, "wrong-result", "erase of key %llu removes %llu elements, expected %zu", k, r, n);
        sim::NoPreempt np; m.erase(k);
    }
    void step(const sim::Op& op)
    {
        int xi = (int)(op.a[0] % 2), yi = 1 - xi; if (!mp[1]) xi = 0;
        M& x = *mp[xi]; const M& c = x; Model& m = md[xi];
        u64 k = (u64)op.a[1] % kr + 1; K q(k);
        if (op.a[2] % 4 == 0 && !m.empty()) { MIt i = m.lower_bound(k); if (i != m.end()) k = i->first; q = K(k); } // an existing key
        switch (op.code) {
        case INSERT: ins(xi, k, op.a[3]); break;
        case INSRANGE: {
            std::vector<std::pair<K, D> > src; size_t n = (size_t)op.a[3] % 20; if (m.size() + n > maxn) break;
            for (size_t i = 0; i < n; ++i) { src.push_back(val((k + i * (u64)op.a[3]) % kr + 1)); m.insert(std::make_pair(src[i].first.k, src[i].second.v)); }
            x.insert(src.begin(), src.end()); break;
        }
        case ASSIGN: ins(xi, k, 2); break;
        case READIDX: if (m.count(k)) { const D& d = x[q]; chk1(q, d, k, m[k], "operator[]"); } break;
        case FIND: if (op.a[3] % 2) chkit(x.find(q), x.end(), m, m.find(k), "find"); else chkit(c.find(q), c.end(), m, m.find(k), "const find"); break;
        case COUNT: { u64 r = x.count(q); SIM_CHECK(r == m.count(k), "wrong-result", "count(%llu) is %llu, expected %zu", k, r, m.count(k)); break; }
        case LOWER: if (op.a[3] % 2) chkit(x.lower_bound(q), x.end(), m, m.lower_bound(k), "lower_bound"); else chkit(c.lower_bound(q), c.end(), m, m.lower_bound(k), "const lower_bound"); break;
        case UPPER: if (op.a[3] % 2) chkit(x.upper_bound(q), x.end(), m, m.upper_bound(k), "upper_bound"); else chkit(c.upper_bound(q), c.end(), m, m.upper_bound(k), "const upper_bound"); break;
        case EQRANGE:
            if (op.a[3] % 2) { std::pair<It, It> r = x.equal_range(q); chkit(r.first, x.end(), m, m.lower_bound(k), "equal_range.first"); chkit(r.second, x.end(), m, m.upper_bound(k), "equal_range.second"); }
            else { std::pair<CIt, CIt> r = c.equal_range(q); chkit(r.first, c.end(), m, m.lower_bound(k), "const equal_range.first"); chkit(r.second, c.end(), m, m.upper_bound(k), "const equal_range.second"); }
            break;
        case ERASEK: era(xi, k, 0); break;
        case ERASEI: era(xi, k, 1); break;
        case ERASER: {
            u64 k2 = (u64)op.a[3] % kr + 1; if (op.a[2] % 3 == 0) k2 = k + C().lt(1, 2) * 2 * (u64)(op.a[3] % 12);
            MIt f = m.lower_bound(k), l = m.lower_bound(k2); It xf = x.lower_bound(q), xl = x.lower_bound(K(k2));
            if (C().lt(k2, k)) break;
            if (op.a[3] % 9 == 0) { f = m.begin(); xf = x.begin(); }
            if (op.a[3] % 11 == 0) { l = m.end(); xl = x.end(); }
            if (f == m.begin() && l == m.end()) drop_held(xi, true);
            for (MIt i = f; i != l; ++i) drop_held(xi, false, i->first);
            x.erase(xf, xl); m.erase(f, l); break;
        }
        case CLEAR: drop_held(xi, true); x.clear(); m.clear(); break;
        case SCAN: scan(x, m, op.a[3]); break;
        case WRITESCAN: {
            It it = x.lower_bound(q); long n = op.a[3] % 30;
            for (MIt i = m.lower_bound(k); i != m.end() && n > 0; ++i, ++it, --n) if (n % 3) { i->second = next; it->second = D(next++); } else chk1(it->first, it->second, i->first, i->second, "writing iteration");
            break;
        }
        case SWAP: if (!mp[1]) break; x.swap(*mp[yi]); m.swap(md[yi]); for (int i = 0; i < NHELD; ++i) if (held[i]) held[i]->obj = 1 - held[i]->obj; break;
        case RECREATE: drop_held(xi, true); delete mp[xi]; mp[xi] = NULL; mp[xi] = make(xi, op.a[1], op.a[2], op.a[3]); break;
        case PREFETCH: if (op.a[1] % 2) x.enable_prefetching(); else x.disable_prefetching(); SIM_CHECK(x.prefetching_enabled() == (op.a[1] % 2 == 1), "wrong-result", "prefetching_enabled() is wrong"); break;
        case HOLD: {
            int s = (int)(op.a[3] % NHELD); delete held[s]; held[s] = NULL;
            Held* h = new Held; h->obj = xi; h->konst = op.a[2] % 3 == 0; h->atend = false;
            MIt i = m.lower_bound(k); if (i == m.end()) h->atend = true; else h->key = i->first;
            if (h->konst) h->cit = c.lower_bound(q); else h->it = x.lower_bound(q);
            held[s] = h; break;
        }
        case COMPARE: if (mp[1]) {
            bool eq, lt; { sim::NoPreempt np; std::vector<std::pair<u64, u64> > p(m.begin(), m.end()), r(md[yi].begin(), md[yi].end()); eq = p == r; lt = p < r; }
            const M& y = *mp[yi];
            SIM_CHECK((c == y) == eq && (c != y) == !eq, "wrong-compare", "operator== is wrong");
            SIM_CHECK((c < y) == lt && (c > y) == (!lt && !eq) && (c <= y) == (lt || eq), "wrong-compare", "operator< is wrong");
            break;
        }
        // fall through
        case RUNINS: for (long i = 0; i <= op.a[3] % 40; ++i) ins(xi, (k + (u64)(i * (op.a[2] % 5 - 2)) + kr) % kr + 1, op.a[2]); break;
        case RUNERASE: for (long i = 0; i <= op.a[3] % 40; ++i) era(xi, (k + (u64)(i * (op.a[2] % 5 - 2)) + kr) % kr + 1, op.a[2]); break;
        case STATS: { std::ostringstream o; x.print_statistics(o); x.reset_statistics(); break; }
        }
        for (int i = 0; i < 2; ++i) if (mp[i]) {
            SIM_CHECK(mp[i]->size() == md[i].size() && mp[i]->empty() == md[i].empty(), "wrong-size", "after %s: size is %llu, expected %zu", opn[op.code], (u64)mp[i]->size(), md[i].size());
            if (md[i].size() > maxsz) maxsz = md[i].size();
        }
        chkheld(op.code < NOPS ? opn[op.code] : "?");
    }
    void go(const sim::Case& c)
    {
        cs = &c; next = 1; maxn = (size_t)c.get("maxn"); kr = (u64)c.get("kr"); maxsz = 0;
        for (int i = 0; i < NHELD; ++i) held[i] = NULL;
        mp[0] = mp[1] = NULL;
        try {
            for (int i = 0; i < c.get("nobj"); ++i) mp[i] = make(i, c.get("how"), c.get("a") + i, c.get("b") + i * 3);
            for (size_t k = 0; k < c.ops.size(); ++k) step(c.ops[k]);
            for (int i = 0; i < 2; ++i) if (mp[i]) { scan(*mp[i], md[i], 1); scan(*mp[i], md[i], 2); }
        }
        catch (std::runtime_error& e) {
            if (strstr(e.what(), "has exceeded the required capacity")) sim::finish("height-limit");
            throw;
        }
        if (c.get("drain")) for (int i = 0; i < 2; ++i) if (mp[i]) {
            drop_held(i, true);
            while (!md[i].empty()) { size_t j = (size_t)next++ % md[i].size(); MIt e = md[i].begin(); std::advance(e, j); era(i, e->first, (long)next); }
            scan(*mp[i], md[i], 0);
        }
        bool hfirst = c.get("drain") == 2;
        if (hfirst) for (int i = 0; i < NHELD; ++i) delete held[i];
        delete mp[0]; delete mp[1];
        if (!hfirst) for (int i = 0; i < NHELD; ++i) delete held[i];   // iterators may outlive their map
    }
};

struct H : ContHarness
{
    const char* name() { return "map"; }
    std::string describe(const sim::Op& o) { char s[120]; snprintf(s, sizeof s, "map %ld: %s (%ld %ld %ld)", o.a[0] % 2, o.code < NOPS ? opn[o.code] : "?", o.a[1], o.a[2], o.a[3]); return s; }
    void gen(sim::Rng& r, sim::Case& c, bool thorough)
    {
        long kind = r.range(0, 5);
        c.set("kind", kind); c.set("nobj", r.range(1, 2));
        c.set("maxn", kind == 3 ? r.pick({ 20L, 300L, 1200L }) : r.pick({ 10L, 30L, 60L, 120L, 250L })); c.set("kr", r.pick({ 20L, 100L, 400L, 100000L }));
        c.set("nc", r.pick({ 3L, 4L, 5L, 6L, 8L })); c.set("lc", r.pick({ 3L, 3L, 4L, 6L, 10L })); c.set("how", r.range(0, 5)); c.set("a", r.range(0, 999)); c.set("b", r.range(0, 9999)); c.set("drain", r.range(0, 2));
        long n = r.range(3, thorough ? 80 : 30), bias = r.range(0, 6);
        if (c.get("mode") == M_ACCOUNT) { n = r.range(2, 10); if (c.get("maxn") > 120) c.set("maxn", 60); c.set("s.memgap", 0); }
        for (long i = 0; i < n; ++i) {
            int op = (int)r.range(0, NOPS - 1);
            if (r.chance((unsigned)bias, 10)) op = r.pick({ (int)RUNINS, (int)RUNINS, (int)RUNERASE, (int)INSERT, (int)ERASEK, (int)HOLD });
            if ((op == RECREATE || op == CLEAR) && r.chance(2, 3)) op = RUNINS;
            c.ops.push_back(sim::Op(op, r.range(0, 1), (long)r.below(100000), (long)r.below(10000), (long)r.below(10000)));
        }
    }
    void body(const sim::Case& c)
    {
        std::unique_ptr<RunBase> r;
        switch (c.get("kind")) {
        case 0: case 1: r.reset(new Run<640, 16, Up<640>, stxxl::SR>); break;
        case 2: r.reset(new Run<640, 16, Down<640>, stxxl::striping>); break;
        case 3: r.reset(new Run<8, 8, Up<8>, stxxl::RC>); break;
        case 4: r.reset(new Run<8, 496, Up<8>, stxxl::FR>); break;
        default: r.reset(new Run<248, 248, Down<248>, stxxl::RC>); break;
        }
        r->go(c);
    }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
