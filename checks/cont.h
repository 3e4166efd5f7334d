// Base of the container and algorithm harnesses.
// mode 0: environment faults that must go unnoticed; mode 1: device errors, fail-stop expected (C23);
// mode 2: the body runs several times, external memory must be back to where it was and heap objects must not accumulate (C24).
#ifndef VERIF_CONT_H
#define VERIF_CONT_H
#include "disks.h"

namespace chk {
enum { M_NORMAL = 0, M_ERRORS = 1, M_ACCOUNT = 2 };

struct ContHarness : sim::Harness
{
    DiskGen dg;
    long limit;            // synchronisation points
    bool mem_preempt;      // also preempt at memory accesses
    ContHarness() : limit(4000000), mem_preempt(true) { dg.maxkb = 64; }
    virtual void gen(sim::Rng& r, sim::Case& c, bool thorough) = 0;
    virtual void body(const sim::Case& c) = 0;

    void generate(sim::Rng& r, sim::Case& c, bool thorough)
    {
        sim::gen_schedule(r, c, mem_preempt && r.chance(1, 3));
        DiskGen g = dg; g.errors = c.get("mode") == M_ERRORS;
        gen_disks(r, c, g);
        gen_env_faults(r, c);
        if (c.get("mode") == M_ERRORS) gen_error_faults(r, c);
        gen(r, c, thorough);
        c.set("s.limit", limit);
    }
    bool accept_terminate(const sim::Case& c, const char* what)
    {
        return c.get("mode") == M_ERRORS && error_faults_fired() > 0 && (strstr(what, "io_error") || strstr(what, "bad_ext_alloc"));
    }
    // a device error was reported to the program by an exception: dying in any way while that exception propagates
    // is fail-stop; wrong data and hangs are not
    const char* accept_violation(const sim::Case& c, const char* cls)
    {
        if (c.get("mode") != M_ERRORS || !error_faults_fired() || !sim::client_throws()) return NULL;
        return !strncmp(cls, "assert:", 7) || !strncmp(cls, "crash:", 6) || !strncmp(cls, "heap-", 5) || !strncmp(cls, "terminate:", 10) || !strncmp(cls, "mutex-", 6) || !strncmp(cls, "cond-", 5) || strstr(cls, "-memory") ? "died-after-reported-error" : NULL;
    }
    void run(const sim::Case& c)
    {
        sim::faults_on(false);
        setup_disks(c);
        stxxl::block_manager* bm = stxxl::block_manager::get_instance();
        int rounds = c.get("mode") == M_ACCOUNT ? 4 : 1;
        sim::u64 objs = 0, grown = 0, more = 0;
        if (rounds > 1) // let every disk create its queue and thread
            for (long d = 0; d < c.get("nd", 1); ++d) {
                stxxl::BID<4096> b; bm->new_block(stxxl::single_disk((int)d), b);
                void* m = abuf(4096); memset(m, 0, 4096);
                b.storage->awrite(m, b.offset, 4096)->wait(); bm->delete_block(b); afree(m);
            }
        for (int i = 0; i < rounds; ++i) {
            sim::faults_on(true);
            if (c.get("mode") == M_ERRORS) {
                try { body(c); }
                catch (stxxl::io_error& e) {
                    SIM_CHECK(error_faults_fired() > 0, "phantom-error", "io_error although the device reported none: %s", e.what());
                    sim::finish("io_error");
                }
                catch (stxxl::bad_ext_alloc& e) {
                    SIM_CHECK(error_faults_fired() > 0, "phantom-error", "bad_ext_alloc although the device reported no error: %s", e.what());
                    sim::finish("bad_ext_alloc");
                }
            }
            else body(c);
            sim::faults_on(false);
            if (c.get("mode") != M_ERRORS || !error_faults_fired()) // destructors give up on device errors
                SIM_CHECK(bm->get_current_allocation() == 0, "external-leak", "%llu bytes of external memory are still allocated after all containers are gone", (u64)bm->get_current_allocation());
            if (c.get("mode") == M_ACCOUNT) {
                sim::sleep_us(1000000);
                sim::u64 now = sim::mem_live_objs();
                if (i && now > objs) { ++grown; more = now - objs; }
                // queues, free lists and lazily created objects may differ once; a leak grows with every repetition
                SIM_CHECK(grown < 3, "heap-leak", "every repetition of the same history leaves more heap objects behind (%llu in the last one)", more);
                objs = now;
            }
        }
    }
};
// element of N bytes; every word depends on the value so that torn or misplaced data shows
template <unsigned N>
struct Elem
{
    u64 v; u64 w[N / 8 - 1];
    Elem() { }
    explicit Elem(u64 x) : v(x) { for (unsigned i = 0; i < N / 8 - 1; ++i) w[i] = x * 31 + i; }
    bool ok() const { for (unsigned i = 0; i < N / 8 - 1; ++i) if (w[i] != v * 31 + i) return false; return true; }
    bool operator == (const Elem& o) const { return v == o.v; }
    bool operator < (const Elem& o) const { return v < o.v; }
};
template <unsigned N> inline std::ostream& operator << (std::ostream& o, const Elem<N>& e) { return o << e.v; } // verbose messages of the library
template <> struct Elem<8>
{
    u64 v; Elem() { } explicit Elem(u64 x) : v(x) { } bool ok() const { return true; }
    bool operator == (const Elem& o) const { return v == o.v; }
    bool operator < (const Elem& o) const { return v < o.v; }
};
}
#endif
