// Schedule control for the harnesses: see sched.cpp.
#pragma once
#include <cstdint>
#include <cstddef>
#include <string>

namespace vf
{
    enum class Mode
    {
        OFF, // no perturbation
        DELAY, // threads run freely, random delays are injected at coverage points
        CTRL // one thread runs at a time, switches happen at coverage points and at blocking calls
    };

    enum class Strategy
    {
        RANDOM, // switch with probability 1/gap at each point
        PCT, // random priorities, `depth` priority change points over `length` points
        BURST // long uninterrupted stretches, but dense switching within randomly placed windows
    };

    struct SchedCfg
    {
        Mode mode = Mode::CTRL;
        Strategy strategy = Strategy::RANDOM;
        uint64_t seed = 1;
        unsigned gap = 16;
        unsigned depth = 3;
        uint64_t length = 20000;
        uint64_t livelock_limit = 4000000; // points without progress() before LIVELOCK is reported
        // DELAY mode
        unsigned delay_every = 200; // mean number of points between delays
        unsigned delay_max_us = 50;
    };

    //! derive a configuration (strategy and its parameters) from a seed
    SchedCfg random_cfg(uint64_t seed, Mode mode);
    std::string describe(SchedCfg const&);

    struct SchedStats
    {
        uint64_t runs = 0;
        uint64_t points = 0; // schedule points executed
        uint64_t switches = 0; // context switches performed (CTRL)
        uint64_t preemptions = 0; // of these: of a thread that could have continued
        uint64_t delays = 0; // delays injected (DELAY)
        uint64_t threads = 0; // threads controlled
        uint64_t deadlock_checks = 0; // quiescent states seen
        uint64_t signatures = 0; // distinct switch sequences over all runs
        uint64_t pair_bits = 0; // distinct (point switched from, point switched to) pairs, hashed to 2^20
        uint64_t guards_hit = 0; // distinct schedule points executed
        uint64_t guards_total = 0;
    };

    //! restart this program without address randomisation, so that a seed reproduces the schedule
    void fix_addresses(char** argv);

    void sched_begin(SchedCfg const&);
    void sched_end();
    SchedStats const& sched_stats();

    //! explicit schedule point in harness code
    void point();
    //! harness saw an event: resets the livelock counter
    void progress();
    /*! blocks until no other controlled thread can make progress (CTRL), i.e. all of them are blocked.
     *  Returns false in modes without control. */
    bool wait_quiescent();
    //! what every thread is doing, for reports
    std::string dump_threads();

    //! called on deadlock ("DEADLOCK") and livelock ("LIVELOCK"); must not return
    extern void (*on_hang)(char const* kind);

    //! number of threads currently alive that were created while controlled
    unsigned live_threads();
} // namespace vf
