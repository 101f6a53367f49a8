// The workers of the code under test pin themselves to processing units. The harnesses run many
// processes next to each other and hand a token from thread to thread, so they leave placement to the
// driver (which pins whole processes). C23 observes the calls and lets them through if it wants to.
#include "bind.hpp"

#include <dlfcn.h>

namespace vf
{
    void (*on_cpubind)(hwloc_const_bitmap_t, int);
    void (*on_membind)(hwloc_const_bitmap_t, hwloc_membind_policy_t, int);
    bool bind_really = false;
    std::atomic<int> bind_failures{0};
} // namespace vf

extern "C" int hwloc_set_cpubind(hwloc_topology_t t, hwloc_const_cpuset_t s, int flags)
{
    if(vf::on_cpubind)
        vf::on_cpubind(s, flags);
    if(!vf::bind_really)
        return 0;
    using F = int (*)(hwloc_topology_t, hwloc_const_cpuset_t, int);
    static F real = (F) dlsym(RTLD_NEXT, "hwloc_set_cpubind");
    int r = real(t, s, flags);
    if(r)
        ++vf::bind_failures;
    return r;
}

extern "C" int hwloc_set_membind(hwloc_topology_t t, hwloc_const_bitmap_t s, hwloc_membind_policy_t p, int flags)
{
    if(vf::on_membind)
        vf::on_membind(s, p, flags);
    if(!vf::bind_really)
        return 0;
    using F = int (*)(hwloc_topology_t, hwloc_const_bitmap_t, hwloc_membind_policy_t, int);
    static F real = (F) dlsym(RTLD_NEXT, "hwloc_set_membind");
    return real(t, s, p, flags);
}
