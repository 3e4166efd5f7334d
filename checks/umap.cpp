// stxxl::unordered_map (external hash map) against std::unordered_map-like model: conscious and oblivious operations, bulk insertion,
// rehashing in between, live iterators, traversal with interleaved modifications, swap.
#define STXXL_DEFAULT_BLOCK_SIZE(type) (8 * 1024)
#include "cont.h"
#include <stxxl/unordered_map>
#include <limits>
#include <map>
#include <set>
#include <memory>
using namespace chk;
namespace {
enum { INSERT, INSOBL, ERASEK, ERASEI, ERASEOBL, ASSIGN, READIDX, FIND, CFIND, COUNT, EQRANGE, BULK, REHASH, LOADFACTOR, CLEAR, SCAN, MODSCAN, SWAP, RECREATE, HOLD, WRITEHELD, STEPHELD, SIZE, RUNINS, RUNERASE, STATS, MAXBUF, NOPS };
const char* opn[] = { "insert", "insert_oblivious", "erase key", "erase iterator", "erase_oblivious", "operator[] =", "operator[] read", "find and write", "const find", "count", "equal_range", "bulk insert", "rehash", "set opt_load_factor",
                      "clear", "scan", "scan with modifications", "swap", "destroy+recreate", "hold an iterator", "write through a held iterator", "advance a held iterator", "size", "insert a run of keys", "erase a run of keys", "statistics", "?" };

template <unsigned N> struct Key
{
    u64 k; u64 w[N / 8 - 1];
    Key() { }
    Key(u64 x) : k(x) { for (unsigned i = 0; i < N / 8 - 1; ++i) w[i] = x * 17 + i; }
    bool ok() const { for (unsigned i = 0; i < N / 8 - 1; ++i) if (w[i] != k * 17 + i) return false; return true; }
    bool operator == (const Key& o) const { return k == o.k; }
};
template <> struct Key<8>
{
    u64 k;
    Key() { }
    Key(u64 x) : k(x) { }
    bool ok() const { return true; }
    bool operator == (const Key& o) const { return k == o.k; }
};
template <unsigned N> std::ostream& operator << (std::ostream& o, const Key<N>& k) { return o << k.k; }
template <unsigned N> struct Lt { bool operator () (const Key<N>& a, const Key<N>& b) const { return a.k < b.k; } static Key<N> min_value() { return Key<N>(0); } static Key<N> max_value() { return Key<N>(~0ull); } };
int hashkind;
template <unsigned N> struct Hash
{
    size_t operator () (const Key<N>& k) const
    {
        switch (hashkind) {
        case 0: return (size_t)(k.k * 0x9E3779B97F4A7C15ull);
        case 1: return (size_t)((k.k % 5) << 61);                 // few distinct values
        case 2: return (size_t)k.k;                                // all in the first bucket
        case 3: return (size_t)~(k.k / 3);                         // all in the last one, near the maximum
        case 4: return (size_t)((k.k << 56) | (k.k >> 8));
        default: return (size_t)0x8000000000000000ull;              // all the same
        }
    }
};
struct RunBase { virtual ~RunBase() { } virtual void go(const sim::Case& c) = 0; };

template <unsigned KN, unsigned DN, unsigned SB, unsigned SPB> struct Run : RunBase
{
    typedef Key<KN> K; typedef Elem<DN> D;
    typedef stxxl::unordered_map<K, D, Hash<KN>, Lt<KN>, SB, SPB> M;
    typedef typename M::iterator It; typedef typename M::const_iterator CIt;
    typedef typename M::value_type V;
    typedef std::map<u64, u64> Model; typedef Model::iterator MIt;
    struct Held { It it; CIt cit; bool konst; u64 key; int obj; Held(M* m) : it(m->end()), cit(static_cast<const M*>(m)->end()) { } };
    enum { NHELD = 5 };
    M* mp[2]; Model md[2]; const sim::Case* cs; u64 next; size_t maxn; u64 kr; Held* held[NHELD]; u64 npend;

    V val(u64 k) { return V(K(k), D(next++)); }
    void chk1(const K& k, const D& d, u64 ek, u64 ev, const char* how)
    {
        sim::NoPreempt np;
        SIM_CHECK(k.k == ek, "wrong-key", "%s: key is %llu, expected %llu", how, (u64)k.k, ek);
        SIM_CHECK(d.v == ev, "wrong-value", "%s: value of key %llu is %llu, expected %llu", how, ek, (u64)d.v, ev);
        SIM_CHECK(k.ok() && d.ok(), "torn-element", "%s: element with key %llu is damaged", how, ek);
    }
    template <class I, class E> void chkit(I it, const E& end, Model& m, MIt e, const char* how)
    {
        SIM_CHECK((it == end) == (e == m.end()), "wrong-position", "%s: %s", how, it == end ? "end() although the key exists" : "an element although the key does not exist");
        if (e != m.end()) chk1((*it).first, (*it).second, e->first, e->second, how);
    }
    M* make(int i, long how, long a, long b)
    {
        size_t buf = (size_t)cs->get("buf"); size_t n = (size_t)cs->get("n0"); if (n > 2) n += (size_t)a % 5;
        md[i].clear();
        if (how % 3) return new M(n, Hash<KN>(), Lt<KN>(), buf);
        std::vector<V> src; size_t cnt = (size_t)b % (maxn + 1); if (a % 7 == 0) cnt = 0;
        std::set<u64> used;
        for (size_t j = 0; j < cnt; ++j) { u64 k = ((u64)a + j * 7919) % kr + 1; if (!used.insert(k).second) continue; src.push_back(val(k)); md[i][k] = src.back().second.v; }
        return new M(src.begin(), src.end(), 512 * 1024, n, Hash<KN>(), Lt<KN>(), buf);
    }
    void drop_held(int o, bool all, u64 key = 0)
    {
        for (int i = 0; i < NHELD; ++i) if (held[i] && held[i]->obj == o && (all || held[i]->key == key)) { delete held[i]; held[i] = NULL; }
    }
    void chkheld(const char* how)
    {
        for (int i = 0; i < NHELD; ++i) if (held[i]) {
            Held& h = *held[i]; Model& m = md[h.obj]; char s[100]; snprintf(s, sizeof s, "held %siterator after %s", h.konst ? "const " : "", how);
            MIt e = m.find(h.key);
            SIM_CHECK(h.konst ? h.cit != const_cast<const M*>(mp[h.obj])->end() : h.it != mp[h.obj]->end(), "wrong-position", "%s has become end()", s);
            if (h.konst) chk1((*h.cit).first, (*h.cit).second, e->first, e->second, s);
            else if (i % 2) chk1((*h.it).first, (*h.it).second, e->first, e->second, s);
            else { CIt c(h.it); chk1((*c).first, (*c).second, e->first, e->second, s); }
        }
    }
    void chksize(int i, const char* how)
    {
        SIM_CHECK(mp[i]->size() == md[i].size() && mp[i]->empty() == md[i].empty(), "wrong-size", "after %s: size is %llu, expected %zu", how, (u64)mp[i]->size(), md[i].size());
    }
    template <class MM, class I> void scan1(MM& x, Model& m, I*)
    {
        size_t n = 0; std::set<u64> seen;
        for (I it = x.begin(); it != x.end(); ++it, ++n) {
            u64 k = (*it).first.k;
            sim::NoPreempt np;
            MIt e = m.find(k);
            SIM_CHECK(e != m.end(), "wrong-element", "traversal delivers key %llu, which is not in the map", k);
            SIM_CHECK(seen.insert(k).second, "duplicate-element", "traversal delivers key %llu twice", k);
            chk1((*it).first, (*it).second, k, e->second, "traversal");
        }
        SIM_CHECK(n == m.size(), "wrong-size", "traversal visits %zu of %zu elements", n, m.size());
    }
    void scan(M& x, Model& m, long a) { if (a % 2) scan1(x, m, (It*)NULL); else scan1(const_cast<const M&>(x), m, (CIt*)NULL); }
    // traversal during which elements are read, written, found, inserted and erased: what is there all the time is visited exactly once
    void modscan(int xi, long a)
    {
        M& x = *mp[xi]; Model& m = md[xi]; std::set<u64> stable, seen; sim::Rng r((u64)a);
        { sim::NoPreempt np; for (MIt i = m.begin(); i != m.end(); ++i) stable.insert(i->first); }
        size_t n = 0, lim = m.size() * 2 + 100;
        for (It it = x.begin(); it != x.end(); ++it) {
            SIM_CHECK(n++ < lim, "wrong-size", "traversal does not end");
            u64 k = (*it).first.k;
            { sim::NoPreempt np; SIM_CHECK(m.count(k), "wrong-element", "traversal delivers key %llu, which is not in the map", k);
              SIM_CHECK(seen.insert(k).second, "duplicate-element", "traversal delivers key %llu twice", k); }
            chk1((*it).first, (*it).second, k, m[k], "traversal");
            switch (r.below(8)) {
            case 0: m[k] = next; (*it).second = D(next++); break;
            case 1: { u64 q = r.below((unsigned)kr) + 1; ins(xi, q, (long)r.below(3)); break; }
            case 2: { u64 q = r.below((unsigned)kr) + 1; if (q != k) { stable.erase(q); era(xi, q, (long)r.below(3)); } break; }
            case 3: { u64 q = r.below((unsigned)kr) + 1; const M& c = x; chkit(c.find(K(q)), c.end(), m, m.find(q), "const find during traversal"); break; }
            case 4: { u64 q = r.below((unsigned)kr) + 1; chkit(x.find(K(q)), x.end(), m, m.find(q), "find during traversal"); break; }
            case 5: { u64 ev = m[k]; It it2(it); chk1((*it2).first, (*it2).second, k, ev, "copied iterator"); if (r.chance(1, 3)) it = it2; break; }
            }
        }
        sim::NoPreempt np;
        for (std::set<u64>::iterator i = stable.begin(); i != stable.end(); ++i) SIM_CHECK(seen.count(*i), "lost-element", "traversal misses key %llu, which was in the map all the time", *i);
    }
    void ins(int xi, u64 k, long how)
    {
        M& x = *mp[xi]; Model& m = md[xi];
        if (m.size() >= maxn && !m.count(k)) return;
        V v = val(k); MIt e; bool fresh; { sim::NoPreempt np; std::pair<MIt, bool> r = m.insert(std::make_pair(k, v.second.v)); e = r.first; fresh = r.second; }
        if (how % 3 == 0) {
            std::pair<It, bool> r = x.insert(v);
            SIM_CHECK(r.second == fresh, "wrong-result", "insert of key %llu reports %s", k, r.second ? "a new element although the key exists" : "that the key exists although it does not");
            chkit(r.first, x.end(), m, e, "insert");
            if (how % 2) { e->second = next; (*r.first).second = D(next++); }
        }
        else if (how % 3 == 1) { e->second = v.second.v; It it = x.insert_oblivious(v); chkit(it, x.end(), m, e, "insert_oblivious"); }
        else { e->second = v.second.v; x[K(k)] = v.second; }
    }
    void era(int xi, u64 k, long how)
    {
        M& x = *mp[xi]; Model& m = md[xi]; size_t n = m.count(k);
        drop_held(xi, false, k);
        if (how % 3 == 1 && n) { if (how % 2) x.erase(x.find(K(k))); else { const M& c = x; x.erase(c.find(K(k))); } m.erase(k); return; }
        if (how % 3 == 2) { x.erase_oblivious(K(k)); m.erase(k); return; }
        u64 r = x.erase(K(k)); SIM_CHECK(r == n, "wrong-result", "erase of key %llu removes %llu elements, expected %zu", k, r, n);
        sim::NoPreempt np; m.erase(k);
    }
    void step(const sim::Op& op)
    {
        int xi = (int)(op.a[0] % 2), yi = 1 - xi; if (!mp[1]) xi = 0;
        M& x = *mp[xi]; const M& c = x; Model& m = md[xi];
        u64 k = (u64)op.a[1] % kr + 1; K q(k);
        if (op.a[2] % 4 == 0 && !m.empty()) { MIt i = m.lower_bound(k); if (i != m.end()) k = i->first; q = K(k); } // an existing key
        switch (op.code) {
        case INSERT: ins(xi, k, op.a[3] * 3 + op.a[3] % 2 * 3); break;
        case INSOBL: ins(xi, k, 1); break;
        case ASSIGN: ins(xi, k, 2); break;
        case ERASEK: era(xi, k, 0); break;
        case ERASEI: era(xi, k, op.a[3] % 2 ? 1 : 4); break;
        case ERASEOBL: era(xi, k, 2); break;
        case READIDX: if (m.count(k)) { const D& d = x[q]; chk1(q, d, k, m[k], "operator[]"); } break;
        case FIND: {
            It it = x.find(q); MIt e = m.find(k); chkit(it, x.end(), m, e, "find");
            if (e != m.end() && op.a[3] % 2) { e->second = next; (*it).second = D(next++); chkit(c.find(q), c.end(), m, e, "const find after writing"); }
            break;
        }
        case CFIND: chkit(c.find(q), c.end(), m, m.find(k), "const find"); break;
        case COUNT: { u64 r = x.count(q); SIM_CHECK(r == m.count(k), "wrong-result", "count(%llu) is %llu, expected %zu", k, r, m.count(k)); break; }
        case EQRANGE:
            if (op.a[3] % 2) {
                std::pair<It, It> r = x.equal_range(q); chkit(r.first, x.end(), m, m.find(k), "equal_range.first");
                if (m.count(k)) ++r.first; SIM_CHECK(r.first == r.second, "wrong-range", "equal_range of a %s key is not a range of %zu elements", m.count(k) ? "present" : "missing", m.count(k));
            } else {
                std::pair<CIt, CIt> r = c.equal_range(q); chkit(r.first, c.end(), m, m.find(k), "const equal_range.first");
                if (m.count(k)) ++r.first; SIM_CHECK(r.first == r.second, "wrong-range", "const equal_range of a %s key is not a range of %zu elements", m.count(k) ? "present" : "missing", m.count(k));
            }
            break;
        case BULK: {
            std::vector<V> src; size_t n = (size_t)op.a[3] % 60; if (op.a[2] % 5 == 0) n *= 5; if (m.size() + n > maxn) n = maxn > m.size() ? maxn - m.size() : 0;
            std::map<u64, std::set<u64> > cand; // of several values for one key any may win
            for (size_t i = 0; i < n; ++i) { src.push_back(val((k + i * (u64)(op.a[3] % 50)) % kr + 1)); cand[src[i].first.k].insert(src[i].second.v); }
            x.insert(src.begin(), src.end(), 512 * 1024);
            for (std::map<u64, std::set<u64> >::iterator i = cand.begin(); i != cand.end(); ++i) {
                u64 v;
                if (i->second.size() == 1) v = *i->second.begin();
                else {
                    CIt it = c.find(K(i->first)); SIM_CHECK(it != c.end(), "lost-element", "bulk-inserted key %llu is missing", i->first); v = (*it).second.v;
                    SIM_CHECK(i->second.count(v), "wrong-value", "bulk-inserted key %llu has value %llu, which is none of the inserted ones", i->first, v);
                }
                m[i->first] = v;
            }
            break;
        }
        case REHASH: x.rehash((size_t)(op.a[3] % 4 ? op.a[3] % 40 : 0)); break;
        case LOADFACTOR: { float z = (float)(0.2 + (double)(op.a[3] % 20) / 10.0); x.opt_load_factor(z); SIM_CHECK(x.opt_load_factor() == z, "wrong-result", "opt_load_factor() differs from what was set"); break; }
        case CLEAR: drop_held(xi, true); x.clear(); m.clear(); break;
        case SCAN: scan(x, m, op.a[3]); break;
        case MODSCAN: modscan(xi, op.a[3]); break;
        case SWAP: if (!mp[1]) break; if (op.a[3] % 2) x.swap(*mp[yi]); else std::swap(x, *mp[yi]); m.swap(md[yi]); for (int i = 0; i < NHELD; ++i) if (held[i]) held[i]->obj = 1 - held[i]->obj; break;
        case RECREATE: drop_held(xi, true); delete mp[xi]; mp[xi] = NULL; mp[xi] = make(xi, op.a[1], op.a[2], op.a[3]); break;
        case HOLD: {
            int s = (int)(op.a[3] % NHELD); delete held[s]; held[s] = NULL;
            MIt i = m.find(k); if (i == m.end()) break;
            Held* h = new Held(&x); h->obj = xi; h->konst = op.a[2] % 3 == 0; h->key = k;
            if (h->konst) h->cit = c.find(q);
            else if (op.a[2] % 3 == 1) h->it = x.insert(val(k)).first;   // may refer to external memory
            else h->it = x.find(q);
            held[s] = h; break;
        }
        case WRITEHELD: for (int i = 0; i < NHELD; ++i) if (held[i] && !held[i]->konst && (op.a[3] >> i & 1)) { (*held[i]->it).second = D(next); md[held[i]->obj][held[i]->key] = next++; } break;
        case STEPHELD: {
            int s = (int)(op.a[3] % NHELD); if (!held[s]) break;
            Held& h = *held[s]; Model& hm = md[h.obj]; M& hx = *mp[h.obj];
            bool end; if (h.konst) { ++h.cit; end = h.cit == const_cast<const M&>(hx).end(); } else { ++h.it; end = h.it == hx.end(); }
            if (end) { delete held[s]; held[s] = NULL; break; }
            h.key = h.konst ? (*h.cit).first.k : (*h.it).first.k;
            SIM_CHECK(hm.count(h.key), "wrong-element", "advancing an iterator leads to key %llu, which is not in the map", h.key);
            break;
        }
        case SIZE: chksize(xi, "size"); break;
        case RUNINS: for (long i = 0; i <= op.a[3] % 40; ++i) ins(xi, (k + (u64)(i * (op.a[2] % 5 - 2)) + kr) % kr + 1, op.a[2]); break;
        case RUNERASE: for (long i = 0; i <= op.a[3] % 40; ++i) era(xi, (k + (u64)(i * (op.a[2] % 5 - 2)) + kr) % kr + 1, op.a[2]); break;
        case STATS: SIM_CHECK(x.bucket_count() == 0 || x.bucket(q) < x.bucket_count(), "wrong-bucket", "bucket(%llu) is %zu of %zu", k, (size_t)x.bucket(q), (size_t)x.bucket_count()); break;
        }
        if (op.a[2] % 3) for (int i = 0; i < 2; ++i) if (mp[i]) chksize(i, op.code < NOPS ? opn[op.code] : "?"); // size() ends the oblivious mode
        chkheld(op.code < NOPS ? opn[op.code] : "?");
    }
    void go(const sim::Case& c)
    {
        cs = &c; next = 1; maxn = (size_t)c.get("maxn"); kr = (u64)c.get("kr");
        for (int i = 0; i < NHELD; ++i) held[i] = NULL;
        mp[0] = mp[1] = NULL;
        for (int i = 0; i < c.get("nobj"); ++i) mp[i] = make(i, c.get("how"), c.get("a") + i, c.get("b") + i * 3);
        for (size_t k = 0; k < c.ops.size(); ++k) step(c.ops[k]);
        for (int i = 0; i < 2; ++i) if (mp[i]) { chksize(i, "everything"); scan(*mp[i], md[i], 1); scan(*mp[i], md[i], 2); }
        if (c.get("drain")) for (int i = 0; i < 2; ++i) if (mp[i]) {
            drop_held(i, true);
            while (!md[i].empty()) { size_t j = (size_t)next++ % md[i].size(); MIt e = md[i].begin(); std::advance(e, j); era(i, e->first, (long)next); }
            scan(*mp[i], md[i], 0);
        }
        for (int i = 0; i < NHELD; ++i) delete held[i];
        delete mp[0]; delete mp[1];
    }
};

struct H : ContHarness
{
    H() { dg.nofpb = true; } // fileperblock disks do not support access to a part of a block, see known_findings.txt
    const char* name() { return "umap"; }
    std::string describe(const sim::Op& o) { char s[120]; snprintf(s, sizeof s, "map %ld: %s (%ld %ld %ld)", o.a[0] % 2, o.code < NOPS ? opn[o.code] : "?", o.a[1], o.a[2], o.a[3]); return s; }
    void gen(sim::Rng& r, sim::Case& c, bool thorough)
    {
        long kind = r.range(0, 3);
        c.set("kind", kind); c.set("nobj", r.range(1, 2)); c.set("hash", r.pick({ 0L, 0L, 0L, 1L, 2L, 3L, 4L, 5L }));
        c.set("maxn", r.pick({ 10L, 40L, 120L, 250L })); c.set("kr", r.pick({ 20L, 100L, 400L, 100000L }));
        c.set("n0", r.pick({ 0L, 0L, 1L, 2L, 10L })); c.set("cache", r.pick({ 8L, 8L, 9L, 12L, 16L }));
        c.set("buf", r.pick({ 0L, 1L, 2L, 5L, 20L, 100L, 100000L }) * 1040);
        c.set("how", r.range(0, 5)); c.set("a", r.range(0, 999)); c.set("b", r.range(0, 9999)); c.set("drain", r.range(0, 1));
        long n = r.range(3, thorough ? 80 : 30), bias = r.range(0, 6);
        if (c.get("mode") == M_ACCOUNT) { n = r.range(2, 10); if (c.get("maxn") > 40) c.set("maxn", 40); c.set("s.memgap", 0); }
        for (long i = 0; i < n; ++i) {
            int op = (int)r.range(0, NOPS - 2);
            if (r.chance((unsigned)bias, 10)) op = r.pick({ (int)RUNINS, (int)RUNINS, (int)RUNERASE, (int)INSERT, (int)ERASEK, (int)HOLD, (int)WRITEHELD });
            if ((op == RECREATE || op == CLEAR) && r.chance(2, 3)) op = RUNINS;
            c.ops.push_back(sim::Op(op, r.range(0, 1), (long)r.below(100000), (long)r.below(10000), (long)r.below(10000)));
        }
    }
    void body(const sim::Case& c)
    {
        hashkind = (int)c.get("hash");
        // the cache needs room for a block per live iterator (5 held, 2 temporary) and a prefetched page
        stxxl::hash_map::tuning::get_instance()->blockcache_size = (size_t)c.get("cache") + (size_t)(4 * c.get("nd"));
        std::unique_ptr<RunBase> r;
        switch (c.get("kind")) {
        case 0: r.reset(new Run<8, 1016, 4096, 4>); break;
        case 1: r.reset(new Run<8, 504, 4096, 2>); break;
        case 2: r.reset(new Run<120, 392, 8192, 2>); break;
        default: r.reset(new Run<8, 120, 4096, 1>); break;
        }
        r->go(c);
    }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
