// Observes the placement of threads: see nobind.cpp.
#pragma once
#include <atomic>

#include <hwloc.h>

namespace vf
{
    //! called on every attempt to bind the calling thread
    extern void (*on_cpubind)(hwloc_const_bitmap_t, int flags);
    extern void (*on_membind)(hwloc_const_bitmap_t, hwloc_membind_policy_t, int flags);
    //! pass the calls on to hwloc
    extern bool bind_really;
    extern std::atomic<int> bind_failures;
} // namespace vf
