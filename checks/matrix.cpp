// Matrix harness (C28): external matrices and vectors against plain arrays of integers modulo 2^64.
#define STXXL_DEFAULT_BLOCK_SIZE(type) (8 * 1024)
#include "cont.h"
#include "par.h"
#include <stxxl/vector>
#include <stxxl/bits/containers/matrix.h>
#include <memory>
#ifndef MODE
#define MODE 0
#endif
using namespace chk;

namespace {
#ifndef BSL
#define BSL 8
#endif
struct Num // 4096 / BSL^2 bytes
{
    enum { W = 4096 / BSL / BSL / 8 };
    u64 v, w[W - 1];
    Num() { }
    Num(int x) { set((u64)(long)x); }
    explicit Num(u64 x) { set(x); }
    void set(u64 x) { v = x; for (int i = 0; i < W - 1; ++i) w[i] = x * 31 + (u64)i; }
    bool ok() const { for (int i = 0; i < W - 1; ++i) if (w[i] != v * 31 + (u64)i) return false; return true; }
    Num operator + (const Num& o) const { return Num(v + o.v); }
    Num operator - (const Num& o) const { return Num(v - o.v); }
    Num operator * (const Num& o) const { return Num(v * o.v); }
    Num operator - () const { return Num((u64)0 - v); }
    Num operator + () const { return *this; }
    Num& operator += (const Num& o) { set(v + o.v); return *this; }
    Num& operator -= (const Num& o) { set(v - o.v); return *this; }
    Num& operator *= (const Num& o) { set(v * o.v); return *this; }
};
typedef stxxl::matrix<Num, BSL> mat;
typedef mat::column_vector_type colv;
typedef mat::row_vector_type rowv;
typedef stxxl::block_scheduler<stxxl::matrix_swappable_block<Num, BSL> > bs_t;

struct Ref // plain matrix
{
    long h, w; std::vector<u64> e;
    Ref(long h_ = 0, long w_ = 0) : h(h_), w(w_), e((size_t)(h_ * w_)) { }
    u64& at(long r, long c) { return e[(size_t)(r * w + c)]; }
    u64 at(long r, long c) const { return e[(size_t)(r * w + c)]; }
    Ref t() const { Ref r(w, h); for (long i = 0; i < h; ++i) for (long j = 0; j < w; ++j) r.at(j, i) = at(i, j); return r; }
    Ref mul(const Ref& o) const
    {
        Ref r(h, o.w);
        for (long i = 0; i < h; ++i) for (long k = 0; k < w; ++k) { u64 x = at(i, k); if (x) for (long j = 0; j < o.w; ++j) r.at(i, j) += x * o.at(k, j); }
        return r;
    }
};
enum { NEW, FILL, SET, READ, COPY, TRANS, ZERO, ADD, SUB, SCALE, ADDA, SUBA, SCALEA, MUL, MULA, MATCOL, ROWMAT, OUTER, VECOPS, ITASSIGN, RANGE, HOLD, NOPS };
const char* opn[] = { "new", "fill", "set", "read", "copy", "transpose", "set_zero", "a=b+c", "a=b-c", "a=b*s", "a+=b", "a-=b", "a*=s", "a=b*c", "a*=b", "matrix*column", "row*matrix", "from vectors", "vector operations", "assign iterator", "iterate to position", "hold an iterator" };
const int NM = 4;

struct Mat : ContHarness
{
    Mat() { dg.maxkb = 512; dg.minkb = 128; limit = 8000000; }
    const char* name() { return "matrix"; }
    std::string describe(const sim::Op& o)
    {
        char b[120]; snprintf(b, sizeof b, "%s a=%ld b=%ld c=%ld args %ld %ld", o.code < NOPS ? opn[o.code] : "?", o.a[0], o.a[1], o.a[2], o.a[3], o.a[4]); return b;
    }
    void gen(sim::Rng& r, sim::Case& c, bool thorough)
    {
        gen_par(r, c);
        bool big = r.chance(1, 6);
        c.set("limit", big ? r.pick({ 100L, 120L }) : r.pick({ 3L, 3L, 4L, 5L, 8L, 16L, 100L }));
        long maxb = thorough && r.chance(1, 8) ? 6 : big ? 5 : r.range(1, 4);
        c.set("maxdim", maxb * BSL); c.set("exact", r.chance(1, 4)); c.set("sparse", r.range(0, 2)); c.set("shapes", r.range(1, 3));
        long n = r.range(2, thorough ? 20 : 12);
        for (long i = 0; i < n; ++i) {
            long w = r.chance(1, 3) ? r.pick({ (long)MUL, (long)MUL, (long)MUL, (long)MULA, (long)FILL, (long)TRANS })
                                    : r.pick({ (long)NEW, (long)FILL, (long)FILL, (long)SET, (long)READ, (long)COPY, (long)COPY, (long)TRANS, (long)TRANS, (long)ZERO, (long)ADD, (long)SUB, (long)SCALE, (long)ADDA, (long)SUBA, (long)SCALEA, (long)MUL, (long)MATCOL, (long)ROWMAT, (long)OUTER, (long)VECOPS, (long)ITASSIGN, (long)RANGE, (long)HOLD });
            c.ops.push_back(sim::Op((int)w, (long)r.below(100), (long)r.below(100), (long)r.below(100), (long)r.below(1000), (long)r.below(1000), (long)r.below(1000)));
        }
    }
    struct X
    {
        bs_t* bs; mat* m[NM]; Ref r[NM]; sim::Rng g; long maxdim; bool exact; long sparse, limit;
        std::vector<std::pair<long, long> > shapes;
        X() : bs(NULL), g(1) { for (int i = 0; i < NM; ++i) m[i] = NULL; }
        ~X() { for (int i = 0; i < NM; ++i) delete m[i]; }
        u64 val() { return g.chance(1, 3) ? g.below(5) : g.next(); }
        std::pair<long, long> shape() { return shapes[g.below(shapes.size())]; }
    };
    static void verify(const Num& n, u64 v, long r, long c, const char* how)
    {
        SIM_CHECK(n.ok(), "torn-element", "%s: element (%ld,%ld) is torn", how, r, c);
        SIM_CHECK(n.v == v, "matrix-element", "%s: element (%ld,%ld) is %llx, expected %llx", how, r, c, n.v, v);
    }
    static void compare(const mat& m, const Ref& r, int how, const char* what)
    {
        SIM_CHECK(m.get_height() == r.h && m.get_width() == r.w, "matrix-shape", "%s: %ldx%ld, expected %ldx%ld", what, (long)m.get_height(), (long)m.get_width(), r.h, r.w);
        if (!r.h || !r.w) return;
        long n = 0;
        switch (how % 4) {
        case 0: {
            mat::const_row_major_iterator it = m.begin();
            for (; !it.empty(); ++it, ++n) { SIM_CHECK(it.get_row() == n / r.w && it.get_col() == n % r.w, "iterator-position", "%s: row-major iterator at (%ld,%ld) after %ld steps", what, (long)it.get_row(), (long)it.get_col(), n); verify(*it, r.at(n / r.w, n % r.w), n / r.w, n % r.w, what); }
            break;
        }
        case 1: {
            mat::const_col_major_iterator it = m.cbegin();
            for (; it != m.cend(); ++it, ++n) { SIM_CHECK(it.get_col() == n / r.h && it.get_row() == n % r.h, "iterator-position", "%s: column-major iterator at (%ld,%ld) after %ld steps", what, (long)it.get_row(), (long)it.get_col(), n); verify(*it, r.at(n % r.h, n / r.h), n % r.h, n / r.h, what); }
            break;
        }
        case 2: {
            mat::const_row_major_iterator it = m(r.h - 1, r.w - 1);
            for (; it; --it, ++n) { long k = r.h * r.w - 1 - n; verify(*it, r.at(k / r.w, k % r.w), k / r.w, k % r.w, what); }
            break;
        }
        case 3: {
            mat::const_col_major_iterator it = m(r.h - 1, r.w - 1);
            for (; it; --it, ++n) { long k = r.h * r.w - 1 - n; verify(*it, r.at(k % r.h, k / r.h), k % r.h, k / r.h, what); }
            break;
        }
        }
        SIM_CHECK(n == r.h * r.w, "iterator-count", "%s: iterated over %ld of %ld elements", what, n, r.h * r.w);
    }
    void fresh(X& x, int i, long h, long w)
    {
        delete x.m[i]; x.m[i] = NULL;
        x.m[i] = new mat(*x.bs, h, w); x.r[i] = Ref(h, w);
    }
    void fillm(X& x, int i, int how)
    {
        mat& m = *x.m[i]; Ref& r = x.r[i];
        if (!r.h || !r.w) return;
        bool sparse = x.sparse && x.g.chance((unsigned)x.sparse, 3);
        if (sparse) { // only some elements, so that whole blocks stay zero
            long n = x.g.range(1, 5);
            for (long k = 0; k < n; ++k) { long a = (long)x.g.below((u64)r.h), b = (long)x.g.below((u64)r.w); u64 v = x.val(); *m(a, b) = Num(v); r.at(a, b) = v; }
        }
        else if (how % 2) { long n = 0; for (mat::row_major_iterator it = m.begin(); it != m.end(); ++it, ++n) { u64 v = x.val(); *it = Num(v); r.e[(size_t)n] = v; } SIM_CHECK(n == r.h * r.w, "iterator-count", "fill: %ld of %ld elements", n, r.h * r.w); }
        else { long n = 0; for (mat::col_major_iterator it = m.begin(); it != m.end(); ++it, ++n) { u64 v = x.val(); *it = Num(v); r.at(n % r.h, n / r.h) = v; } SIM_CHECK(n == r.h * r.w, "iterator-count", "fill: %ld of %ld elements", n, r.h * r.w); }
    }
    // make matrix i have the given shape (0: do not care)
    void shape(X& x, int i, long h, long w)
    {
        if ((h >= 0 && x.r[i].h != h) || (w >= 0 && x.r[i].w != w)) { fresh(x, i, h >= 0 ? h : x.r[i].h, w >= 0 ? w : x.r[i].w); fillm(x, i, 1); }
    }
    template <class V> static void fillv(X& x, V& v, std::vector<u64>& r)
    {
        for (size_t i = 0; i < r.size(); ++i) { r[i] = x.val(); v[i] = Num(r[i]); }
    }
    template <class V> static void comparev(V& v, const std::vector<u64>& r, const char* what)
    {
        SIM_CHECK(v.size() == r.size(), "vector-size", "%s: %zu elements, expected %zu", what, (size_t)v.size(), r.size());
        const V& cv = v;
        for (size_t i = 0; i < r.size(); ++i) { Num n = cv[i]; verify(n, r[i], (long)i, 0, what); }
    }
    template <class V> void vecops(X& x, long n)
    {
        std::vector<u64> ra((size_t)n), rb((size_t)n); V a((size_t)n), b((size_t)n);
        fillv(x, a, ra); fillv(x, b, rb);
        u64 s = x.val();
        std::vector<u64> t(ra);
        { for (size_t i = 0; i < t.size(); ++i) t[i] = ra[i] + rb[i]; V c(a + b); comparev(c, t, "vector +"); }
        { for (size_t i = 0; i < t.size(); ++i) t[i] = ra[i] - rb[i]; V c(a - b); comparev(c, t, "vector -"); }
        { for (size_t i = 0; i < t.size(); ++i) t[i] = ra[i] * s; V c(a * Num(s)); comparev(c, t, "vector * scalar"); }
        a += b; for (size_t i = 0; i < t.size(); ++i) ra[i] += rb[i]; comparev(a, ra, "vector +=");
        b -= a; for (size_t i = 0; i < t.size(); ++i) rb[i] -= ra[i]; comparev(b, rb, "vector -=");
        a *= Num(s); for (size_t i = 0; i < t.size(); ++i) ra[i] *= s; comparev(a, ra, "vector *=");
        a.set_zero(); ra.assign(ra.size(), 0); comparev(a, ra, "vector set_zero");
    }
    void body(const sim::Case& c)
    {
        setup_par(c);
        X x; x.g = sim::Rng((u64)c.get("s.seed") ^ 0x4D41); x.maxdim = c.get("maxdim", BSL); x.exact = c.get("exact") != 0; x.sparse = c.get("sparse"); x.limit = c.get("limit", 3);
        for (long k = 0; k < c.get("shapes", 1); ++k) {
            long h = x.g.range(1, x.maxdim), w = x.g.range(1, x.maxdim);
            if (x.limit >= 100 && x.g.chance(1, 2)) h = x.maxdim - (long)x.g.below(BSL), w = x.maxdim - (long)x.g.below(BSL);
            if (x.exact) { h = (h + BSL - 1) / BSL * BSL; w = (w + BSL - 1) / BSL * BSL; }
            x.shapes.push_back(std::make_pair(h, w));
        }
        bs_t bs((stxxl::int_type)(x.limit * 4096)); x.bs = &bs;
        struct Cleanup { X& x; ~Cleanup() { for (int i = 0; i < NM; ++i) { delete x.m[i]; x.m[i] = NULL; } } } cleanup = { x };
        for (int i = 0; i < NM; ++i) { std::pair<long, long> s = x.shape(); fresh(x, i, s.first, s.second); if (i % 2 == 0) fillm(x, i, i); }
        for (size_t k = 0; k < c.ops.size(); ++k) {
            const sim::Op& o = c.ops[k];
            int a = (int)(o.a[0] % NM), b = (int)(o.a[1] % NM), d = (int)(o.a[2] % NM);
            Ref& A = x.r[a]; Ref& B = x.r[b];
            switch (o.code) {
            case NEW: { std::pair<long, long> s = x.shape(); fresh(x, a, s.first, s.second); break; }
            case FILL: fillm(x, a, (int)o.a[3]); break;
            case SET: if (A.h && A.w) { long r = o.a[3] % A.h, q = o.a[4] % A.w; u64 v = x.val(); mat::iterator it = (*x.m[a])(r, q); verify(*it, A.at(r, q), r, q, "before set"); *it = Num(v); A.at(r, q) = v; } break;
            case READ: break;
            case COPY: if (a != b) { if (o.a[3] % 2) { delete x.m[a]; x.m[a] = NULL; x.m[a] = new mat(*x.m[b]); } else *x.m[a] = *x.m[b]; A = B; } break;
            case TRANS: x.m[a]->transpose(); A = A.t(); break;
            case ZERO: x.m[a]->set_zero(); A = Ref(A.h, A.w); break;
            case ADD: case SUB: {
                shape(x, d, B.h, B.w);
                const Ref& D = x.r[d]; Ref R(B.h, B.w);
                for (size_t i = 0; i < R.e.size(); ++i) R.e[i] = o.code == ADD ? B.e[i] + D.e[i] : B.e[i] - D.e[i];
                if (o.code == ADD) *x.m[a] = *x.m[b] + *x.m[d]; else *x.m[a] = *x.m[b] - *x.m[d];
                A = R; break;
            }
            case SCALE: case SCALEA: {
                u64 s = x.val(); int src = o.code == SCALE ? b : a; Ref R = x.r[src];
                for (size_t i = 0; i < R.e.size(); ++i) R.e[i] *= s;
                if (o.code == SCALE) *x.m[a] = *x.m[b] * Num(s); else *x.m[a] *= Num(s);
                A = R; break;
            }
            case ADDA: case SUBA: {
                shape(x, b, A.h, A.w);
                Ref R = A; for (size_t i = 0; i < R.e.size(); ++i) R.e[i] = o.code == ADDA ? A.e[i] + x.r[b].e[i] : A.e[i] - x.r[b].e[i];
                if (o.code == ADDA) *x.m[a] += *x.m[b]; else *x.m[a] -= *x.m[b];
                A = R; break;
            }
            case MUL: case MULA: {
                int l = o.code == MUL ? b : a, r = o.code == MUL ? d : b;
                shape(x, r, x.r[l].w, -1);
                if (x.r[l].w != x.r[r].h) break; // l and r are the same matrix, now of another shape
                Ref R = x.r[l].mul(x.r[r]);
                long alg = o.a[3] % 7, sched = o.a[4] % 3;
                if (alg == 3 && x.limit < 100) alg = 1;
                char nm[64]; snprintf(nm, sizeof nm, "mul-alg%ld-sched%ld", alg, sched); sim::probe(nm);
                if (o.code == MULA) *x.m[a] *= *x.m[b];
                else if (o.a[5] % 8 == 0) *x.m[a] = *x.m[l] * *x.m[r];
                else *x.m[a] = x.m[l]->multiply(*x.m[r], alg, sched);
                A = R;
                compare(*x.m[a], A, 0, nm);
                break;
            }
            case MATCOL: {
                if (!B.h || !B.w) break;
                std::vector<u64> rv((size_t)B.w), res((size_t)B.h); colv v((size_t)B.w); fillv(x, v, rv);
                for (long i = 0; i < B.h; ++i) for (long j = 0; j < B.w; ++j) res[(size_t)i] += B.at(i, j) * rv[(size_t)j];
                colv z(*x.m[b] * v); comparev(z, res, "matrix * column"); comparev(v, rv, "column afterwards");
                break;
            }
            case ROWMAT: {
                if (!B.h || !B.w) break;
                std::vector<u64> rv((size_t)B.h), res((size_t)B.w); rowv v((size_t)B.h); fillv(x, v, rv);
                for (long i = 0; i < B.h; ++i) for (long j = 0; j < B.w; ++j) res[(size_t)j] += B.at(i, j) * rv[(size_t)i];
                rowv z(v * *x.m[b]); comparev(z, res, "row * matrix"); comparev(v, rv, "row afterwards");
                break;
            }
            case OUTER: {
                std::pair<long, long> s = x.shape();
                std::vector<u64> rl((size_t)s.first), rr((size_t)s.second); colv l((size_t)s.first); rowv r((size_t)s.second); fillv(x, l, rl); fillv(x, r, rr);
                delete x.m[a]; x.m[a] = NULL; x.m[a] = new mat(*x.bs, l, r); A = Ref(s.first, s.second);
                for (long i = 0; i < A.h; ++i) for (long j = 0; j < A.w; ++j) A.at(i, j) = rl[(size_t)i] * rr[(size_t)j];
                if (s.first == s.second) { u64 dot = 0; for (size_t i = 0; i < rl.size(); ++i) dot += rl[i] * rr[i]; Num n = r * l; verify(n, dot, 0, 0, "row * column"); }
                break;
            }
            case VECOPS: if (o.a[3] % 2) vecops<colv>(x, x.shape().first); else vecops<rowv>(x, x.shape().second); break;
            case ITASSIGN: { // an iterator that holds a block moves to another matrix
                if (!A.h || !A.w || !B.h || !B.w) break;
                long r1 = o.a[3] % A.h, q1 = o.a[4] % A.w, r2 = o.a[5] % B.h, q2 = o.a[3] % B.w;
                if (o.a[4] % 2) { r2 = std::min(r1, B.h - 1); q2 = std::min(q1, B.w - 1); }
                mat::iterator it = (*x.m[a])(r1, q1); verify(*it, A.at(r1, q1), r1, q1, "iterator");
                u64 v = x.val(); *it = Num(v); A.at(r1, q1) = v;
                mat::iterator jt = (*x.m[b])(r2, q2);
                if (o.a[5] % 2) verify(*jt, B.at(r2, q2), r2, q2, "second iterator");
                it = jt; verify(*it, B.at(r2, q2), r2, q2, "assigned iterator");
                v = x.val(); *it = Num(v); B.at(r2, q2) = v;
                if (a != b) { // the same with constant iterators
                    const mat& ca = *x.m[a]; const mat& cb = *x.m[b];
                    mat::const_iterator ci = ca(r1, q1), cj = cb(r2, q2);
                    verify(*ci, A.at(r1, q1), r1, q1, "constant iterator"); ci = cj; verify(*ci, B.at(r2, q2), r2, q2, "assigned constant iterator");
                }
                sim::probe("iterator-assign");
                break;
            }
            case RANGE: { // up to a position inside
                if (!B.h || !B.w) break;
                const mat& m = *x.m[b]; long stop = o.a[3] * 7919 % (B.h * B.w), n = 0;
                mat::const_row_major_iterator e = m(stop / B.w, stop % B.w);
                for (mat::const_row_major_iterator it = m.begin(); it != e; ++it, ++n) verify(*it, B.at(n / B.w, n % B.w), n / B.w, n % B.w, "range");
                SIM_CHECK(n == stop, "iterator-count", "iterating to position %ld ended after %ld steps", stop, n);
                break;
            }
            case HOLD: { // two iterators at a time
                if (!A.h || !A.w || !B.h || !B.w) break;
                { mat::iterator it = x.m[a]->begin(); (void)it; } { mat::iterator it = x.m[b]->begin(); (void)it; } // both unshared
                mat::row_major_iterator it = x.m[a]->begin(), jt = (*x.m[b])(B.h - 1, B.w - 1);
                for (long n = 0; n < 20 && it && jt; ++n) {
                    verify(*it, A.at(it.get_row(), it.get_col()), it.get_row(), it.get_col(), "held iterator");
                    u64 v = x.val(); *jt = Num(v); B.at(jt.get_row(), jt.get_col()) = v;
                    mat::row_major_iterator kt = it; SIM_CHECK(kt == it, "iterator-equal", "a copied iterator differs");
                    it.set_pos((it.get_row() + o.a[3]) % A.h, (it.get_col() + o.a[4]) % A.w); --jt;
                }
                break;
            }
            }
            for (int i = 0; i < NM; ++i)
                if (i == a || o.code == READ || k % 4 == 3) compare(*x.m[i], x.r[i], (int)(k + (size_t)i), o.code < NOPS ? opn[o.code] : "?");
        }
        for (int i = 0; i < NM; ++i) compare(*x.m[i], x.r[i], i, "at the end");
    }
};
Mat theh;
}
sim::Harness* sim::harness() { return &theh; }
