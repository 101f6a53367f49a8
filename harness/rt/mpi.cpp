// C22: the request pool against a stand-in for MPI, which completes requests in random order and groups.
#include <redGrapes/dispatch/mpi/request_pool.hpp>
#include <redGrapes/memory/hwloc_alloc.hpp>
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/scheduler/default_scheduler.hpp>
#include <redGrapes/scheduler/tag_match.hpp>

#include "rt.hpp"

#include <algorithm>
#include <thread>

namespace rg = redGrapes;
using hx::found;
using hx::Rng;

struct vf_mpi_request
{
    int id;
    int polls_left; // how often it is still found incomplete
    int after; // does not complete before this request did
    std::atomic<int> state; // 0: incomplete, 1: reported complete
    std::atomic<int> waiters; // calls of get_status()
    std::atomic<int> returned;
    std::atomic<int> testing; // calls of MPI functions on it
};

namespace
{
    constexpr int MAXR = 3000;
    vf_mpi_request g_req[MAXR];
    std::atomic<int> g_n;
    std::atomic<int> g_pending;
    std::atomic<uint64_t> g_rng;
    int g_group; // percent of requests completing that could
    int g_max_group;
    std::atomic<long> g_tests, g_groups, g_completed, g_unordered, g_max_pending, g_returned, g_kids;

    Rng rng()
    {
        return Rng(g_rng.fetch_add(0x1234567));
    }

    void fill(MPI_Status* s, int id)
    {
        s->MPI_SOURCE = id * 3 + 1;
        s->MPI_TAG = id * 7 + 2;
        s->MPI_ERROR = id & 1;
        s->count = 0x100000000ull + id;
    }

    bool matches(MPI_Status const& s, int id)
    {
        return s.MPI_SOURCE == id * 3 + 1 && s.MPI_TAG == id * 7 + 2 && s.count == 0x100000000ull + id;
    }

    MPI_Request new_request(Rng& r)
    {
        int i = g_n.fetch_add(1);
        if(i >= MAXR)
            abort();
        auto& q = g_req[i];
        q.id = i;
        q.polls_left = r.p(20) ? 0 : r.p(10) ? r.upto(60) : r.upto(8);
        q.after = -1;
        q.state = 0;
        q.waiters = 0;
        q.returned = 0;
        q.testing = 0;
        return &q;
    }

    struct Testing
    {
        std::vector<vf_mpi_request*> v;

        Testing(int n, MPI_Request* r)
        {
            for(int i = 0; i < n; ++i)
                if(r[i])
                {
                    if(r[i] < g_req || r[i] >= g_req + g_n)
                        found("MPI", "an invalid request is tested");
                    if(r[i]->testing.exchange(1))
                        found("MPI", "request %d is tested twice at the same time", r[i]->id);
                    v.push_back(r[i]);
                    if(r[i]->state)
                        found("MPI", "request %d, which was completed, is tested again", r[i]->id);
                }
            vf::point();
        }

        ~Testing()
        {
            for(auto q : v)
                q->testing = 0;
        }
    };

    bool could(vf_mpi_request* q)
    {
        return q->polls_left-- <= 0 && (q->after < 0 || g_req[q->after].state);
    }

    void complete(MPI_Request& r, MPI_Status* s)
    {
        if(s)
            fill(s, r->id);
        r->state = 1;
        g_completed++;
        g_pending--;
        vf::progress();
        r = MPI_REQUEST_NULL;
    }
} // namespace

extern "C"
{
    int MPI_Testsome(int n, MPI_Request r[], int* outcount, int indices[], MPI_Status s[])
    {
        Testing t(n, r);
        g_tests++;
        g_max_pending = std::max(g_max_pending.load(), (long) n);
        if(t.v.empty())
        {
            *outcount = MPI_UNDEFINED;
            return MPI_SUCCESS;
        }
        Rng rnd = rng();
        std::vector<int> done;
        for(int i = 0; i < n; ++i)
            if(r[i] && could(r[i]) && rnd.p(g_group))
                done.push_back(i);
        // any order
        if(rnd.p(80))
            for(size_t i = done.size(); i > 1; --i)
                std::swap(done[i - 1], done[rnd.upto(i)]);
        else if(rnd.p(50))
            std::reverse(done.begin(), done.end());
        if((int) done.size() > g_max_group)
            done.resize(g_max_group);
        if(!std::is_sorted(done.begin(), done.end()))
            g_unordered++;
        *outcount = done.size();
        if(done.size() > 1)
            g_groups++;
        for(size_t i = 0; i < done.size(); ++i)
        {
            indices[i] = done[i];
            complete(r[done[i]], s ? &s[i] : nullptr);
        }
        // the rest is not specified
        for(int i = done.size(); i < n; ++i)
        {
            indices[i] = rnd.upto(n);
            if(s)
                fill(&s[i], 1000000);
        }
        return MPI_SUCCESS;
    }

    int MPI_Waitsome(int n, MPI_Request r[], int* outcount, int indices[], MPI_Status s[])
    {
        do
            MPI_Testsome(n, r, outcount, indices, s);
        while(*outcount == 0);
        return MPI_SUCCESS;
    }

    int MPI_Testany(int n, MPI_Request r[], int* index, int* flag, MPI_Status* s)
    {
        Testing t(n, r);
        g_tests++;
        *index = MPI_UNDEFINED;
        *flag = t.v.empty();
        Rng rnd = rng();
        int o = rnd.upto(n);
        for(int k = 0; k < n; ++k)
        {
            int i = (k + o) % n;
            if(r[i] && could(r[i]))
            {
                *index = i;
                *flag = 1;
                complete(r[i], s);
                break;
            }
        }
        return MPI_SUCCESS;
    }

    int MPI_Testall(int n, MPI_Request r[], int* flag, MPI_Status s[])
    {
        Testing t(n, r);
        g_tests++;
        *flag = 1;
        for(int i = 0; i < n; ++i)
            if(r[i] && !could(r[i]))
                *flag = 0;
        if(*flag)
            for(int i = 0; i < n; ++i)
                if(r[i])
                    complete(r[i], s ? &s[i] : nullptr);
        return MPI_SUCCESS;
    }

    int MPI_Test(MPI_Request* r, int* flag, MPI_Status* s)
    {
        Testing t(1, r);
        g_tests++;
        *flag = !*r || could(*r);
        if(*r && *flag)
            complete(*r, s);
        return MPI_SUCCESS;
    }

    int MPI_Wait(MPI_Request* r, MPI_Status* s)
    {
        int f;
        do
        {
            MPI_Test(r, &f, s);
            vf::point();
        } while(!f);
        return MPI_SUCCESS;
    }

    int MPI_Request_get_status(MPI_Request r, int* flag, MPI_Status* s)
    {
        Testing t(1, &r);
        *flag = !r || could(r);
        if(r && *flag && s)
            fill(s, r->id);
        return MPI_SUCCESS;
    }
}

namespace
{
    struct Cfg
    {
        int setup; // 0: as in the example, 1: polling threads, 2: polled by the main thread while it waits
        int per_task;
        bool kids;
    };

    Cfg g_c;

    using Pool = std::shared_ptr<rg::dispatch::mpi::RequestPool>;

    void wait_one(Rng& r, Pool const& pool)
    {
        MPI_Request q = new_request(r);
        int id = q->id;
        // sometimes not before an earlier one
        if(r.p(25) && id)
        {
            int k = r.upto(id);
            if(g_req[k].waiters && g_req[k].after < 0)
                g_req[id].after = k;
        }
        g_pending++;
        g_req[id].waiters++;
        MPI_Status s = pool->get_status(q);
        if(!g_req[id].state)
            found("MPI", "get_status() of request %d returns before it was completed", id);
        if(!matches(s, id))
            found(
                "MPI",
                "get_status() of request %d returns the status of %s (source %d, tag %d)",
                id,
                s.MPI_SOURCE % 3 == 1 && s.MPI_TAG == (s.MPI_SOURCE - 1) / 3 * 7 + 2 ? "another one" : "none",
                s.MPI_SOURCE,
                s.MPI_TAG);
        if(g_req[id].returned.fetch_add(1))
            found("MPI", "get_status() of request %d returns twice", id);
        g_returned++;
        vf::progress();
    }

    void body(uint64_t seed, Pool const& pool, int depth)
    {
        Rng r(seed);
        int n = r.upto(g_c.per_task + 1);
        for(int i = 0; i < n; ++i)
        {
            wait_one(r, pool);
            if(g_c.kids && depth < 2 && r.p(25))
            {
                uint64_t s = r();
                g_kids++;
                auto b = rg::emplace_task([s, pool, depth] { body(s, pool, depth + 1); });
                b.enable_stack_switching();
                if(g_c.setup == 0)
                    b.scheduling_tags({TAG_A});
                auto f = b.submit();
                if(r.p(40))
                    f.get();
            }
        }
    }

    using Alloc = rg::memory::ChunkedBumpAlloc<rg::memory::HwlocAlloc>;
} // namespace

void mpi_case(uint64_t seed)
{
    Rng r(seed);
    int workers = r.range(1, 4), n = r.range(2, r.p(20) ? 60 : 16);
    g_c.setup = r.upto(3);
    g_c.per_task = r.range(1, 4);
    g_c.kids = r.p(40);
    g_group = r.p(30) ? 100 : r.range(20, 90);
    g_max_group = r.p(30) ? r.range(1, 3) : 1000;
    g_rng = r();
    g_n = 0;
    g_pending = 0;
    int pollers = g_c.setup == 1 ? r.range(1, 2) : 0;
    char const* sn[] = {"polled when idle, tasks on the main thread", "polling threads", "polled when idle, tasks on workers"};
    hx::describe(fmt_(
        "mpi %s workers=%d tasks=%d requests<=%d%s group=%d%% max %d pollers=%d",
        sn[g_c.setup],
        workers,
        n,
        g_c.per_task,
        g_c.kids ? " children" : "",
        g_group,
        g_max_group,
        pollers));
    mw::new_generation();
    vf::sched_begin(vf::random_cfg(seed * 31 + 17, hx::mode()));
    auto& ctx = rg::SingletonContext::get();
    auto old_idle = ctx.idle;
    {
        auto pool = std::make_shared<rg::dispatch::mpi::RequestPool>();
        std::unique_ptr<Alloc> alloc;
        std::shared_ptr<rg::dispatch::thread::Worker> w;
        auto def = std::make_shared<rg::scheduler::DefaultScheduler>();
        std::atomic<bool> stop{false};
        std::vector<std::thread> threads;
        if(g_c.setup == 0)
        {
            hwloc_obj_t obj = hwloc_get_obj_by_type(ctx.hwloc_ctx.topology, HWLOC_OBJ_PU, 0);
            alloc = std::make_unique<Alloc>(rg::memory::HwlocAlloc(ctx.hwloc_ctx, obj));
            w = std::make_shared<rg::dispatch::thread::Worker>(*alloc, ctx.hwloc_ctx, obj, 4);
            ctx.idle = [w, pool]
            {
                pool->poll();
                rg::Task* task;
                if((task = w->ready_queue.pop()))
                    rg::SingletonContext::get().execute_task(*task);
                while(w->init_dependencies(task, true))
                    if(task)
                    {
                        rg::SingletonContext::get().execute_task(*task);
                        break;
                    }
                vf::point();
            };
            rg::init(workers, rg::scheduler::make_tag_match_scheduler().add({}, def).add({TAG_A}, w));
        }
        else
        {
            if(g_c.setup == 2)
                ctx.idle = [pool]
                {
                    pool->poll();
                    vf::point();
                };
            rg::init(workers, def);
        }
        for(int i = 0; i < pollers; ++i)
            threads.emplace_back(
                [pool, &stop]
                {
                    while(!stop)
                    {
                        pool->poll();
                        vf::point();
                    }
                });
        {
            std::vector<rg::IOResource<int>> res;
            for(int i = 0; i < 2; ++i)
                res.emplace_back(0);
            for(int i = 0; i < n; ++i)
            {
                uint64_t s = r();
                auto b = rg::emplace_task([s, pool] { body(s, pool, 0); });
                b.enable_stack_switching();
                if(g_c.setup == 0)
                    b.scheduling_tags({TAG_A});
                if(r.p(15))
                {
                    int k = r.upto(2);
                    b.add_resource(r.p(50) ? (rg::ResourceAccess) res[k].read() : (rg::ResourceAccess) res[k].write());
                }
                auto f = b.submit();
                if(r.p(8))
                    f.get();
            }
            rg::barrier();
        }
        stop = true;
        for(auto& t : threads)
            t.join();
        if(g_pending)
            found("MPI", "%d requests are not completed, although all tasks are done", g_pending.load());
        pool.reset();
        ctx.idle = old_idle;
        w.reset();
        def.reset();
        rg::finalize();
    }
    for(int i = 0; i < g_n; ++i)
        if(g_req[i].returned != 1)
            found("MPI", "get_status() of request %d returned %d times", i, g_req[i].returned.load());
    check_no_blocks();
    vf::sched_end();
    hx::stat("requests", g_n);
    hx::stat("tests", g_tests.exchange(0));
    hx::stat("groups", g_groups.exchange(0));
    hx::stat("unordered_groups", g_unordered.exchange(0));
    hx::stat("children", g_kids.exchange(0));
    hx::stat("returned", g_returned.exchange(0));
    hx::stat_max("max_pending", g_max_pending.exchange(0));
    hx::case_done(g_n > 1);
}
