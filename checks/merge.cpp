// Parallel multiway merge, multisequence partition and parallel mergesort under simulated OpenMP threads.
#include "par.h"
#include <stxxl/bits/parallel/multiway_mergesort.h>
#include <stxxl/bits/parallel/multiseq_selection.h>
#include <algorithm>
using namespace chk;
namespace {
enum { MERGE, SORT, PART, NOPS };
const char* opn[] = { "multiway merge", "parallel mergesort", "multisequence partition" };
struct Big { u64 v, w[3]; Big() { } explicit Big(u64 x) : v(x) { w[0] = x + 1; w[1] = x * 3; w[2] = ~x; } bool ok() const { return w[0] == v + 1 && w[1] == v * 3 && w[2] == ~v; } };
u64 val(const Big& b) { return b.v; }
u64 val(u64 x) { return x; }
bool fine(const Big& b) { return b.ok(); }
bool fine(u64) { return true; }
// value = key << 24 | sequence << 16 | index; only the key takes part in the order
template <class T> struct Less { bool operator () (const T& a, const T& b) const { return (val(a) >> 24) < (val(b) >> 24); } };
u64 mk(u64 key, u64 s, u64 i) { return key << 24 | s << 16 | i; }

void keys(sim::Rng& r, long style, size_t n, std::vector<u64>& out)
{
    for (size_t i = 0; i < n; ++i)
        switch (style % 5) {
        case 0: out.push_back(r.below(1000000)); break;
        case 1: out.push_back(r.below(4)); break;
        case 2: out.push_back(7); break;
        case 3: out.push_back(r.below(n + 1)); break;
        default: out.push_back(r.chance(1, 3) ? r.below(1000) : 5); break;
        }
}

template <class T> struct Seqs
{
    typedef std::pair<T*, T*> P;
    std::vector<P> seqs, orig; std::vector<T*> mem; std::vector<std::vector<u64> > ref; size_t total;
    Seqs(sim::Rng& r, size_t k, long style, long lstyle, bool sentinel, bool nonempty) : total(0)
    {
        sim::NoPreempt np;
        for (size_t s = 0; s < k; ++s) {
            size_t n = lstyle % 4 == 0 ? r.below(4) : lstyle % 4 == 1 ? r.below(60) : lstyle % 4 == 2 ? (r.chance(1, 3) ? 0 : r.below(30)) : (s == 0 ? 200 : r.below(5));
            if (nonempty && n == 0) n = 1;
            std::vector<u64> kk; keys(r, style, n, kk); std::sort(kk.begin(), kk.end());
            T* m = (T*)malloc(sizeof(T) * (n + sentinel)); // exact size: any access beyond is detected
            std::vector<u64> v;
            for (size_t i = 0; i < n; ++i) { v.push_back(mk(kk[i], s, i)); m[i] = T(v[i]); }
            if (sentinel) m[n] = T(mk(1u << 30, s, n));
            mem.push_back(m); ref.push_back(v); seqs.push_back(P(m, m + n)); total += n;
        }
        orig = seqs;
    }
    ~Seqs() { for (size_t i = 0; i < mem.size(); ++i) free(mem[i]); }
    // the first len elements in stable order
    std::vector<u64> prefix(size_t len)
    {
        std::vector<u64> all;
        for (size_t s = 0; s < ref.size(); ++s) all.insert(all.end(), ref[s].begin(), ref[s].end());
        std::stable_sort(all.begin(), all.end(), [](u64 a, u64 b) { return (a >> 24) < (b >> 24); });
        all.resize(len);
        return all;
    }
    void input_intact(const char* how)
    {
        for (size_t s = 0; s < ref.size(); ++s)
            for (size_t i = 0; i < ref[s].size(); ++i)
                SIM_CHECK(val(orig[s].first[i]) == ref[s][i] && fine(orig[s].first[i]), "input-changed", "%s changed element %zu of sequence %zu", how, i, s);
    }
};
template <class T> void merge(const sim::Op& op, sim::Rng& r)
{
    size_t k = (size_t)op.a[0] % (op.a[4] % 3 == 0 ? 24 : 6); int variant = (int)(op.a[1] % 4); bool stable = variant & 1, sentinel = variant & 2;
    Seqs<T> q(r, k, op.a[2], op.a[3], sentinel, false);
    size_t len = op.a[4] % 2 ? q.total : q.total ? r.below(q.total + 1) : 0;
    if (len == 0 && q.total) len = 1;
    T* out = (T*)malloc(sizeof(T) * (len ? len : 1)); memset(out, 0xEE, sizeof(T) * (len ? len : 1));
    const char* how = variant == 0 ? "multiway_merge" : variant == 1 ? "multiway_merge_stable" : variant == 2 ? "multiway_merge_sentinels" : "multiway_merge_stable_sentinels";
    T* e;
    typedef typename std::vector<std::pair<T*, T*> >::iterator It;
    It b = q.seqs.begin(), en = q.seqs.end(); long l = (long)len;
    switch (variant) {
    case 0: e = stxxl::potentially_parallel::multiway_merge(b, en, out, l, Less<T>()); break;
    case 1: e = stxxl::potentially_parallel::multiway_merge_stable(b, en, out, l, Less<T>()); break;
    case 2: e = stxxl::potentially_parallel::multiway_merge_sentinels(b, en, out, l, Less<T>()); break;
    default: e = stxxl::potentially_parallel::multiway_merge_stable_sentinels(b, en, out, l, Less<T>()); break;
    }
    sim::NoPreempt np;
    SIM_CHECK(e == out + len, "wrong-end", "%s returned the end of %ld instead of %zu elements", how, (long)(e - out), len);
    std::vector<u64> ref = q.prefix(len), got;
    for (size_t i = 0; i < len; ++i) {
        SIM_CHECK(fine(out[i]), "torn-element", "%s: element %zu has a damaged body", how, i);
        got.push_back(val(out[i]));
        SIM_CHECK(got[i] >> 24 == ref[i] >> 24, "wrong-merge", "%s: key of element %zu of %zu is %llu, expected %llu (%zu sequences, %zu elements)", how, i, len, got[i] >> 24, ref[i] >> 24, k, q.total);
        if (stable) SIM_CHECK(got[i] == ref[i], "not-stable", "%s: element %zu is from sequence %llu, expected %llu", how, i, got[i] >> 16 & 255, ref[i] >> 16 & 255);
    }
    size_t adv = 0; std::vector<u64> want;
    for (size_t s = 0; s < k; ++s) {
        SIM_CHECK(q.seqs[s].second == q.orig[s].second, "wrong-advance", "%s moved the end of sequence %zu", how, s);
        SIM_CHECK(q.seqs[s].first >= q.orig[s].first && q.seqs[s].first <= q.orig[s].second, "wrong-advance", "%s advanced sequence %zu out of its range", how, s);
        size_t a = (size_t)(q.seqs[s].first - q.orig[s].first); adv += a;
        for (size_t i = 0; i < a; ++i) want.push_back(q.ref[s][i]);
    }
    SIM_CHECK(adv == len, "wrong-advance", "%s of %zu elements advanced the sequences by %zu", how, len, adv);
    std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
    SIM_CHECK(got == want, "wrong-advance", "%s: the elements written are not those the sequences were advanced over", how);
    q.input_intact(how);
    free(out);
}
template <class T> void sort(const sim::Op& op, sim::Rng& r)
{
    size_t n = (size_t)op.a[0] % (op.a[4] % 3 ? 40 : 300); bool stable = op.a[1] & 1;
    std::vector<u64> kk; T* a = (T*)malloc(sizeof(T) * (n ? n : 1));
    { sim::NoPreempt np; keys(r, op.a[2], n, kk); for (size_t i = 0; i < n; ++i) { kk[i] = mk(kk[i], i >> 16, i & 0xFFFF); a[i] = T(kk[i]); } }
    int th = 1 + (int)(op.a[3] % 8);
    if (stable) stxxl::parallel::parallel_sort_mwms<true>(a, a + n, Less<T>(), th); else stxxl::parallel::parallel_sort_mwms<false>(a, a + n, Less<T>(), th);
    sim::NoPreempt np;
    std::vector<u64> ref = kk, got; std::stable_sort(ref.begin(), ref.end(), [](u64 x, u64 y) { return (x >> 24) < (y >> 24); });
    for (size_t i = 0; i < n; ++i) {
        got.push_back(val(a[i])); SIM_CHECK(fine(a[i]), "torn-element", "mergesort: element %zu has a damaged body", i);
        SIM_CHECK(got[i] >> 24 == ref[i] >> 24, "wrong-sort", "parallel mergesort of %zu elements with %d threads: key %zu is %llu, expected %llu", n, th, i, got[i] >> 24, ref[i] >> 24);
        if (stable) SIM_CHECK(got[i] == ref[i], "not-stable", "stable parallel mergesort: element %zu was at %llu, expected %llu", i, got[i] & 0xFFFF, ref[i] & 0xFFFF);
    }
    std::sort(got.begin(), got.end()); std::sort(kk.begin(), kk.end());
    SIM_CHECK(got == kk, "wrong-sort", "parallel mergesort does not return a permutation of its input");
    free(a);
}
template <class T> void part(const sim::Op& op, sim::Rng& r)
{
    size_t k = 1 + (size_t)op.a[0] % 12;
    Seqs<T> q(r, k, op.a[2], op.a[3], false, true);
    long rank = (long)r.below(q.total + 1);
    std::vector<T*> off(k); Less<T> ls;
    stxxl::parallel::multiseq_partition(q.seqs.begin(), q.seqs.end(), rank, off.begin(), ls);
    sim::NoPreempt np;
    std::vector<u64> ref = q.prefix((size_t)rank); std::vector<size_t> cnt(k, 0);
    for (size_t i = 0; i < ref.size(); ++i) ++cnt[ref[i] >> 16 & 255];
    for (size_t s = 0; s < k; ++s) SIM_CHECK((size_t)(off[s] - q.seqs[s].first) == cnt[s], "wrong-partition", "multiseq_partition at rank %ld of %zu: sequence %zu split at %ld, expected %zu", rank, q.total, s, (long)(off[s] - q.seqs[s].first), cnt[s]);
    q.input_intact("multiseq_partition");
    if ((size_t)rank < q.total) {
        long o = -1; T e = stxxl::parallel::multiseq_selection<T>(q.seqs.begin(), q.seqs.end(), rank, o, ls);
        std::vector<u64> all = q.prefix(q.total); u64 key = all[(size_t)rank] >> 24; long first = rank; while (first > 0 && all[(size_t)first - 1] >> 24 == key) --first;
        SIM_CHECK(val(e) >> 24 == key && o == rank - first, "wrong-selection", "multiseq_selection at rank %ld delivers key %llu offset %ld, expected %llu offset %ld", rank, val(e) >> 24, o, key, rank - first);
    }
}
struct H : sim::Harness
{
    const char* name() { return "merge"; }
    std::string describe(const sim::Op& o) { char s[120]; snprintf(s, sizeof s, "%s (%ld %ld %ld %ld %ld)", o.code < NOPS ? opn[o.code] : "?", o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]); return s; }
    void generate(sim::Rng& r, sim::Case& c, bool thorough)
    {
        sim::gen_schedule(r, c, r.chance(1, 2)); gen_par(r, c);
        c.set("outer", r.chance(1, 6) ? r.range(2, 3) : 1); c.set("nested", r.chance(1, 3)); c.set("rs", (long)r.below(1u << 30));
        long n = r.range(1, thorough ? 12 : 4);
        for (long i = 0; i < n; ++i)
            c.ops.push_back(sim::Op(r.pick({ (int)MERGE, (int)MERGE, (int)MERGE, (int)SORT, (int)PART }), (long)r.below(10000), (long)r.below(10000), (long)r.below(10000), (long)r.below(10000), (long)r.below(10000), r.range(0, 1)));
        c.set("s.limit", 2000000);
    }
    void step(const sim::Op& op, u64 seed)
    {
        sim::Rng r(seed);
        switch (op.code) {
        case MERGE: op.a[5] ? merge<Big>(op, r) : merge<u64>(op, r); break;
        case SORT: op.a[5] ? sort<Big>(op, r) : sort<u64>(op, r); break;
        default: op.a[5] ? part<Big>(op, r) : part<u64>(op, r); break;
        }
    }
    void run(const sim::Case& c)
    {
        quiet_logs(); setup_par(c); omp_set_nested((int)c.get("nested"));
        sim::faults_on(true);
        int outer = (int)c.get("outer", 1); u64 rs = (u64)c.get("rs");
        for (size_t k = 0; k < c.ops.size(); ++k) {
            if (outer == 1) step(c.ops[k], rs + k);
            else {
#pragma omp parallel num_threads(outer)
                step(c.ops[k], rs + k * 8 + (u64)omp_get_thread_num());
            }
        }
    }
};
H theh;
}
sim::Harness* sim::harness() { return &theh; }
