// C23: any number of workers on any machine, init()/finalize() again and again. Every case is a process of its own, with
// a machine of its own (hwloc makes it up), since the topology is loaded once per process.
#include "rt.hpp"

#include "../support/bind.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/scheduler/default_scheduler.hpp>

#include <algorithm>
#include <dirent.h>
#include <map>
#include <mutex>
#include <sched.h>
#include <set>
#include <thread>
#include <unistd.h>

namespace rg = redGrapes;
using hx::found;
using hx::Rng;

namespace
{
    struct Bind
    {
        int pu = -1, pus = 0, calls = 0;
        int mem = -1, mems = 0, mem_calls = 0;
        bool thread = false;
    };

    thread_local Bind t_bind;

    void on_cpubind(hwloc_const_bitmap_t s, int flags)
    {
        t_bind.calls++;
        t_bind.pus = hwloc_bitmap_weight(s);
        t_bind.pu = hwloc_bitmap_first(s);
        t_bind.thread = !(flags & HWLOC_CPUBIND_PROCESS);
    }

    void on_membind(hwloc_const_bitmap_t s, hwloc_membind_policy_t, int flags)
    {
        t_bind.mem_calls++;
        t_bind.mems = hwloc_bitmap_weight(s);
        t_bind.mem = hwloc_bitmap_first(s);
    }

    int threads()
    {
        int n = 0;
#if defined(__has_feature)
#    if __has_feature(thread_sanitizer)
        return 0; // has threads of its own
#    endif
#endif
        if(DIR* d = opendir("/proc/self/task"))
        {
            while(dirent* e = readdir(d))
                n += e->d_name[0] != '.';
            closedir(d);
        }
        return n;
    }

    //! tasks go to the workers in turn and stay there
    struct Directed : rg::scheduler::DefaultScheduler
    {
        std::atomic<unsigned> next{0};

        void emplace_task(rg::Task& t) override
        {
            auto& p = *rg::SingletonContext::get().worker_pool;
            p.get_worker(next++ % p.size()).emplace_task(t);
        }

        rg::Task* steal_task(rg::dispatch::thread::Worker&) override
        {
            return nullptr;
        }
    };

    constexpr int MAXW = 260;
    std::atomic<int> g_started;
    std::atomic<int> g_ran;
    Bind g_bind[MAXW];
    int g_runs[MAXW];
    bool g_real;

    __attribute__((noinline)) int this_worker()
    {
        auto w = rg::SingletonContext::get().current_worker;
        if(!w)
            found("WORKERS", "a task does not run on a worker");
        return (int) w->get_worker_id();
    }

    //! the placement of the current thread and of its memory
    __attribute__((noinline)) void check_placement(int n)
    {
        int w = this_worker();
        if(w < 0 || w >= n)
            found("WORKERS", "a task runs on worker %d of %d", w, n);
        Bind b = t_bind;
        if(!b.calls)
            found("WORKERS", "worker %d runs a task, but is not pinned", w);
        if(b.pus != 1)
            found("WORKERS", "worker %d is pinned to %d processing units", w, b.pus);
        if(!b.thread)
            found("WORKERS", "worker %d pins the whole process", w);
        if(!b.mem_calls || b.mem != b.pu || b.mems != 1)
            found("WORKERS", "worker %d on processing unit %d binds its memory to %d (%d units)", w, b.pu, b.mem, b.mems);
        __atomic_add_fetch(&g_runs[w], 1, __ATOMIC_SEQ_CST);
        g_bind[w] = b;
        // the arena of this worker lies in memory of its unit (other threads may allocate from there as well: emplace_task
        // takes the arenas in turn)
        rg::memory::Allocator a((unsigned) w);
        auto blk = a.allocate(48);
        if(!blk)
            found("WORKERS", "worker %d has no memory", w);
        int pu = mw::chunk_pu((void*) blk.ptr);
        if(pu != b.pu)
            found("WORKERS", "worker %d on processing unit %d has an arena in memory bound to %d", w, b.pu, pu);
        a.deallocate(blk);
        if(g_real && !vf::bind_failures)
        {
            cpu_set_t s;
            if(sched_getaffinity(0, sizeof s, &s) == 0)
            {
                if(CPU_COUNT(&s) != 1)
                    found("WORKERS", "worker %d may run on %d processing units", w, CPU_COUNT(&s));
                hx::stat("real_bindings");
            }
        }
    }

    //! every worker runs a task at the same time
    void rendezvous(int n)
    {
        g_started = 0;
        for(int i = 0; i < n; ++i)
            rg::emplace_task(
                [i, n]
                {
                    int w = this_worker();
                    if(w != i)
                        found("WORKERS", "a task for worker %d runs on worker %d", i, w);
                    check_placement(n);
                    g_started++;
                    vf::progress();
                    while(g_started < n)
                    {
                        vf::point();
                        if(hx::mode() != vf::Mode::CTRL)
                            sched_yield();
                    }
                });
        rg::barrier();
        if(g_started != n)
            found("WORKERS", "only %d of %d workers ran a task", g_started.load(), n);
        hx::stat("rendezvous");
    }

    void fork_tasks(Rng r, int depth)
    {
        int k = r.upto(3);
        for(int i = 0; i < k && depth < 2; ++i)
        {
            uint64_t s = r();
            rg::emplace_task(
                [s, depth]
                {
                    g_ran++;
                    vf::progress();
                    fork_tasks(Rng(s), depth + 1);
                });
        }
    }

    int count_tasks(Rng r, int depth)
    {
        int k = r.upto(3), n = 0;
        for(int i = 0; i < k && depth < 2; ++i)
        {
            uint64_t s = r();
            n += 1 + count_tasks(Rng(s), depth + 1);
        }
        return n;
    }

    //! an ordinary program
    void program(Rng& r, int n, int tasks)
    {
        g_ran = 0;
        int expected = 0;
        std::vector<rg::IOResource<long>> res;
        std::vector<long> writes(3, 0);
        for(int i = 0; i < 3; ++i)
            res.emplace_back(0L);
        for(int i = 0; i < tasks; ++i)
        {
            uint64_t s = r();
            expected += 1 + count_tasks(Rng(s), 0);
            int k = r.upto(3);
            bool get = r.p(10);
            auto body = [s, n, i]
            {
                check_placement(n);
                g_ran++;
                vf::progress();
                fork_tasks(Rng(s), 0);
                return i;
            };
            if(r.p(40))
            {
                writes[k]++;
                auto f = rg::emplace_task(
                             [body](auto x)
                             {
                                 long v = *x;
                                 vf::point();
                                 *x = v + 1;
                                 return body();
                             },
                             res[k].write())
                             .submit();
                if(get && f.get() != i)
                    found("WORKERS", "a future has a wrong result");
            }
            else
            {
                auto f = rg::emplace_task(body).submit();
                if(get && f.get() != i)
                    found("WORKERS", "a future has a wrong result");
            }
        }
        rg::barrier();
        if(g_ran != expected)
            found("WORKERS", "%d of %d tasks ran", g_ran.load(), expected);
        for(int i = 0; i < 3; ++i)
        {
            auto x = rg::emplace_task([](auto v) { return *v; }, res[i].read()).submit().get();
            if(x != writes[i])
                found("WORKERS", "%ld of %ld writes are seen", x, writes[i]);
        }
        rg::barrier();
    }

    char const* topologies[] = {
        "",
        "pu:1",
        "pu:2",
        "pu:7",
        "numa:2 core:2 pu:2",
        "numa:3 core:1 pu:1",
        "numa:4 core:8 pu:4",
        "pu:64",
        "core:65 pu:1",
        "numa:2 core:3 pu:2(indexes=0,6,1,7,2,8,3,9,4,10,5,11)",
    };
    constexpr int NTOPO = sizeof(topologies) / sizeof(topologies[0]);

    void one(uint64_t seed)
    {
        Rng r(seed);
        char const* topo = r.p(25) ? "" : topologies[r.upto(NTOPO)];
        if(*topo)
            setenv("HWLOC_SYNTHETIC", topo, 1);
        else
            unsetenv("HWLOC_SYNTHETIC");
        int cycles = r.range(1, 4);
        bool many = r.p(25);
        std::vector<int> ns;
        int const special[] = {16, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 200, 257};
        for(int i = 0; i < cycles; ++i)
            ns.push_back(many ? special[r.upto(14)] : r.range(1, 9));
        if(many && cycles > 2)
            cycles = hx::mode() == vf::Mode::CTRL ? 1 : 2;
        std::string d = fmt_("machine '%s' cycles:", topo);
        for(int i = 0; i < cycles; ++i)
            d += " " + std::to_string(ns[i]);
        hx::describe(d);
        g_real = !*topo && hx::mode() != vf::Mode::CTRL && r.p(60);
        vf::bind_really = g_real;
        vf::on_cpubind = on_cpubind;
        vf::on_membind = on_membind;
        auto cfg = vf::random_cfg(seed * 31 + 17, hx::mode());
        if(many && cfg.mode == vf::Mode::CTRL)
        {
            // few switches between many threads
            cfg.gap = std::max(cfg.gap, 200u);
            cfg.livelock_limit = 40000000;
        }
        int before = threads();
        vf::sched_begin(cfg);
        for(int c = 0; c < cycles; ++c)
        {
            int n = ns[c];
            mw::new_generation();
            bool directed = r.p(50);
            auto& ctx = rg::SingletonContext::get();
            int pus = hwloc_get_nbobjs_by_type(ctx.hwloc_ctx.topology, HWLOC_OBJ_PU);
            for(int i = 0; i < MAXW; ++i)
            {
                g_bind[i] = Bind();
                g_runs[i] = 0;
            }
            if(directed)
                rg::init(n, std::make_shared<Directed>());
            else
                rg::init(n);
            if(mw::old_chunks())
                found("WORKERS", "%llu chunks of an earlier cycle are still there", (unsigned long long) mw::old_chunks());
            if(directed)
            {
                rendezvous(n);
                if(r.p(50))
                    rendezvous(n);
                std::set<int> p;
                for(int i = 0; i < n; ++i)
                {
                    if(!g_runs[i])
                        found("WORKERS", "worker %d of %d ran no task", i, n);
                    p.insert(g_bind[i].pu);
                }
                if((int) p.size() < std::min(n, pus))
                    found("WORKERS", "%d workers share %zu of %d processing units", n, p.size(), pus);
                hx::stat("workers_ran", n);
            }
            program(r, n, r.range(0, many ? 2 * n : 25));
            rg::finalize();
            if(hx::mode() == vf::Mode::CTRL && vf::live_threads() != 1)
                found("WORKERS", "%u threads are left after finalize()", vf::live_threads() - 1);
            for(int i = 0; threads() != before && i < 2000; ++i)
                usleep(1000); // joined threads vanish from /proc with a delay
            if(threads() != before)
                found("WORKERS", "%d threads exist after finalize(), %d before init()", threads(), before);
            check_no_blocks();
            hx::stat("cycles");
            hx::stat_max("max_workers", n);
            if(n > pus)
                hx::stat("more_workers_than_units");
        }
        vf::sched_end();
        hx::stat("tasks", g_ran);
        if(g_real && vf::bind_failures)
            hx::stat("binding_impossible");
    }
} // namespace

void workers_case(uint64_t seed)
{
    hx::describe(fmt_("process %llu", (unsigned long long) seed));
    hx::in_process(one, seed);
    hx::case_done(true);
}
