// Frame of the smaller harnesses: arguments, reports, counters, run loop, a global event clock.
#pragma once
#include "sched.hpp"

#include <cstdint>
#include <string>

namespace hx
{
    struct Args
    {
        std::string what, mode = "ctrl";
        uint64_t seed = 1, count = 1;
        unsigned budget = 0, watchdog = 300;
    };

    extern Args args;
    extern uint64_t cur_seed;

    void init(int argc, char** argv);
    vf::Mode mode();

    //! report a violation and end the process
    [[noreturn]] void found(char const* cls, char const* fmt, ...) __attribute__((format(printf, 2, 3)));
    //! the case has to be given up without a verdict
    [[noreturn]] void inconclusive(char const* why);

    //! counters for the evidence
    void stat(char const* name, uint64_t add = 1);
    void stat_max(char const* name, uint64_t v);
    //! text of the current case for reports and samples
    void describe(std::string const&);
    //! count a case; distinct ones by hash of the description, non-trivial ones as told
    void case_done(bool nontrivial);

    //! calls f(seed) for count cases or until the time is used up
    void loop(void (*f)(uint64_t seed));
    [[noreturn]] void finish();

    //! runs f(seed) in a process of its own and adds its counters; a report of it is final
    void in_process(void (*f)(uint64_t seed), uint64_t seed);

    //! global event clock, invisible to race detectors
    uint64_t tick();

    struct Rng
    {
        uint64_t s;

        explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 12345)
        {
        }

        uint64_t operator()()
        {
            uint64_t z = (s += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }

        unsigned upto(unsigned n)
        {
            return n ? (unsigned) ((*this)() % n) : 0;
        }

        unsigned range(unsigned a, unsigned b)
        {
            return a + upto(b - a + 1);
        }

        bool p(unsigned percent)
        {
            return upto(100) < percent;
        }
    };

    // registry of live objects (invisible to race detectors)
    void born(void const* p, int id);
    void died(void const* p, int id); // reports an object that is not alive
    bool alive(void const* p, int id);
    long live_objects(int id); // id -1: all
    void reset_objects();
    //! memory that is never reused within a run, filled with garbage when it is freed
    void* mem_alloc(size_t n);
    void mem_free(void* p);
    long mem_live();
    void mem_reset(); // really free
} // namespace hx
