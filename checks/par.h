// Settings of the parallel algorithms (stxxl::parallel::SETTINGS, __gnu_parallel) and of the simulated OpenMP runtime.
#ifndef VERIF_PAR_H
#define VERIF_PAR_H
#include "common.h"
#include <stxxl/bits/parallel.h>
#include <stxxl/bits/parallel/settings.h>
#include <parallel/settings.h>
#include <omp.h>

namespace chk {
inline void gen_par(sim::Rng& r, sim::Case& c)
{
    c.set("p.threads", r.pick({ 1L, 2L, 2L, 3L, 4L, 5L, 8L }));
    c.set("p.min_n", r.pick({ 0L, 2L, 2L, 10L, 1000L })); c.set("p.min_k", r.pick({ 1L, 2L, 2L, 3L }));
    c.set("p.force", r.chance(1, 8)); c.set("p.split", r.chance(1, 3)); c.set("p.algo", r.range(0, 3));
    c.set("p.over", r.pick({ 1L, 2L, 10L })); c.set("p.ssplit", r.chance(1, 3)); c.set("p.sover", r.pick({ 1L, 2L, 10L }));
    if (r.chance(1, 4)) sim::gen_fault(c, sim::F_OMP_FEWER, r.pick({ 1000L, 5000L }));
}
inline void setup_par(const sim::Case& c)
{
    typedef stxxl::parallel::SETTINGS S;
    int t = (int)c.get("p.threads", 1);
    sim::omp_set_max(t);
    S::num_threads = t; S::force_parallel = c.get("p.force"); S::force_sequential = false;
    S::multiway_merge_minimal_n = (stxxl::parallel::sequence_index_t)c.get("p.min_n", 1000); S::multiway_merge_minimal_k = (int)c.get("p.min_k", 2);
    S::multiway_merge_splitting = c.get("p.split") ? S::SAMPLING : S::EXACT;
    const S::MultiwayMergeAlgorithm al[] = { S::LOSER_TREE, S::BUBBLE, S::LOSER_TREE_COMBINED, S::LOSER_TREE_SENTINEL };
    S::multiway_merge_algorithm = al[c.get("p.algo")];
    S::merge_oversampling = (unsigned)c.get("p.over", 10); S::multiway_merge_oversampling = (unsigned)c.get("p.over", 10);
    S::sort_splitting = c.get("p.ssplit") ? S::SAMPLING : S::EXACT; S::sort_mwms_oversampling = (unsigned)c.get("p.sover", 10);
    S::sort_minimal_n = (stxxl::parallel::sequence_index_t)c.get("p.min_n", 1000);
    __gnu_parallel::_Settings g = __gnu_parallel::_Settings::get(); // used by potentially_parallel::sort
    g.sort_minimal_n = (__gnu_parallel::_SequenceIndex)(c.get("p.min_n", 1000) < 2 ? 2 : c.get("p.min_n", 1000));
    g.sort_splitting = c.get("p.ssplit") ? __gnu_parallel::SAMPLING : __gnu_parallel::EXACT;
    __gnu_parallel::_Settings::set(g);
}
}
#endif
