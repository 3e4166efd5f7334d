// A small OpenMP runtime on simulated threads (replaces libgomp): the simulator decides every interleaving
// of parallel regions.
#include "internal.h"
#include <pthread.h>

namespace sim {
struct Team
{
    int n; int arrived; unsigned gen; int single_done; Team* up;
    // work-sharing loops
    struct Loop { long next, end, incr, chunk; int inited, left; } loop[64];
    int sections_next;
};
static int g_max_threads = 4, g_nested = 0, g_dynamic = 0;
struct Start { void (* fn)(void*); void* data; Team* team; int num; };
static void* start(void* p)
{
    Start* s = (Start*)p;
    g_cur->team = s->team; g_cur->tnum = s->num; g_cur->single_gen = 0;
    s->fn(s->data);
    return NULL;
}
static void barrier(Team* t)
{
    if (!t || t->n <= 1) return;
    sched_point(P_SYNC);
    unsigned g = t->gen;
    if (++t->arrived == t->n) { t->arrived = 0; t->gen++; wake_all(W_BAR, t); sched_point(P_SIGNAL); return; }
    while (t->gen == g) block(W_BAR, t);
}
void omp_set_max(int n) { g_max_threads = n; }
}
using namespace sim;
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned)
{
    if (n == 0) n = (unsigned)g_max_threads;
    if (!g_insim) { fn(data); return; }
    Fiber* me = g_cur;
    if (me->team && me->team->n > 1 && !g_nested) n = 1;
    if (n > 64) n = 64;
    u64 cut = 0;
    if (n > 1 && fault(F_OMP_FEWER, &cut)) n = 1 + (unsigned)(cut % (n - 1)); // thread limit, dynamic adjustment
    Team t; memset(&t, 0, sizeof t); t.n = (int)n; t.up = me->team;
    Team* ot = me->team; int otn = me->tnum, osg = me->single_gen;
    Start st[64]; int ids[64];
    for (unsigned i = 1; i < n; ++i) {
        st[i].fn = fn; st[i].data = data; st[i].team = &t; st[i].num = (int)i;
        ids[i] = fiber_create(start, &st[i], "omp");
    }
    if (n > 1) sched_point(P_SYNC);
    me->team = &t; me->tnum = 0; me->single_gen = 0;
    fn(data);
    for (unsigned i = 1; i < n; ++i) fiber_join(ids[i]);
    me->team = ot; me->tnum = otn; me->single_gen = osg;
    if (n > 1) { probe("omp-parallel-regions"); sched_point(P_SYNC); }
}
void GOMP_barrier(void) { if (g_insim) barrier(g_cur->team); }
bool GOMP_single_start(void)
{
    if (!g_insim || !g_cur->team) return true;
    sched_point(P_SYNC);
    int g = ++g_cur->single_gen;
    if (g > g_cur->team->single_done) { g_cur->team->single_done = g; return true; }
    return false;
}
static int g_crit = 0;
static void crit_lock(int* l) { if (!g_insim) return; sched_point(P_LOCK); while (*l) block(W_CRIT, l); *l = g_cur->id + 1; }
static void crit_unlock(int* l) { if (!g_insim) return; *l = 0; wake_all(W_CRIT, l); sched_point(P_UNLOCK); }
void GOMP_critical_start(void) { crit_lock(&g_crit); }
void GOMP_critical_end(void) { crit_unlock(&g_crit); }
void GOMP_critical_name_start(void** p) { crit_lock((int*)p); }
void GOMP_critical_name_end(void** p) { crit_unlock((int*)p); }
static int g_atom = 0;
void GOMP_atomic_start(void) { crit_lock(&g_atom); }
void GOMP_atomic_end(void) { crit_unlock(&g_atom); }
static bool loop_next(long* b, long* e)
{
    sched_point(P_SYNC);
    Team* t = g_cur->team;
    Team::Loop& l = t->loop[g_cur->single_gen & 63];
    if (l.incr > 0 ? l.next >= l.end : l.next <= l.end) return false;
    *b = l.next;
    long e2 = l.next + l.incr * l.chunk;
    if (l.incr > 0 ? e2 > l.end : e2 < l.end) e2 = l.end;
    *e = e2; l.next = e2;
    return true;
}
static Team g_solo;
static bool loop_start(long s, long en, long inc, long chunk, long* b, long* e)
{
    if (!g_cur->team) { memset(&g_solo, 0, sizeof g_solo); g_solo.n = 1; g_cur->team = &g_solo; }
    ++g_cur->single_gen;
    Team::Loop& l = g_cur->team->loop[g_cur->single_gen & 63];
    if (l.inited != g_cur->single_gen) { l.inited = g_cur->single_gen; l.next = s; l.end = en; l.incr = inc; l.chunk = chunk > 0 ? chunk : 1; }
    if (g_cur->single_gen > g_cur->team->single_done) g_cur->team->single_done = g_cur->single_gen;
    return loop_next(b, e);
}
#define LOOP(NM) \
    bool GOMP_loop_ ## NM ## _start(long s, long en, long inc, long ch, long* b, long* e) { return loop_start(s, en, inc, ch, b, e); } \
    bool GOMP_loop_ ## NM ## _next(long* b, long* e) { return loop_next(b, e); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) { }
int omp_get_thread_num(void) { return g_insim && g_cur->team ? g_cur->tnum : 0; }
int omp_get_num_threads(void) { return g_insim && g_cur->team ? g_cur->team->n : 1; }
int omp_get_max_threads(void) { return g_max_threads; }
void omp_set_num_threads(int n) { if (n > 0) g_max_threads = n; }
int omp_get_nested(void) { return g_nested; }
void omp_set_nested(int v) { g_nested = v; }
int omp_get_dynamic(void) { return g_dynamic; }
void omp_set_dynamic(int v) { g_dynamic = v; }
int omp_in_parallel(void) { return g_insim && g_cur->team && g_cur->team->n > 1; }
int omp_get_num_procs(void) { return g_max_threads; }
int omp_get_level(void) { int l = 0; if (g_insim) for (Team* t = g_cur->team; t; t = t->up) ++l; return l; }
int omp_get_thread_limit(void) { return 64; }
double omp_get_wtime(void) { return (double)g_clock * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }
struct OL { int v; };
void omp_init_lock(OL* l) { l->v = 0; }
void omp_destroy_lock(OL*) { }
void omp_set_lock(OL* l) { crit_lock(&l->v); }
void omp_unset_lock(OL* l) { crit_unlock(&l->v); }
int omp_test_lock(OL* l) { if (l->v) return 0; l->v = g_cur ? g_cur->id + 1 : 1; return 1; }
}
