// C18: routing by tags. The tag-match scheduler is wrapped by a spy, and the schedulers registered with it record
// what they are asked; the spy compares every call with the calls it led to.
#include "rt.hpp"

#include <redGrapes/memory/hwloc_alloc.hpp>
#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/scheduler/default_scheduler.hpp>
#include <redGrapes/scheduler/tag_match.hpp>

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>

#include <csignal>
#include <fcntl.h>
#include <thread>
#include <unistd.h>

namespace rg = redGrapes;
using hx::found;
using hx::Rng;
using Tags = std::bitset<64>;

namespace
{
    enum Kind
    {
        EMPLACE,
        ACTIVATE,
        STEAL,
        WAKE,
        WAKE_ALL,
        DEP
    };

    char const* kind_name[] = {"emplace_task", "activate_task", "steal_task", "wake", "wake_all", "task_dependency_type"};

    struct Call
    {
        int sub;
        Kind kind;
        rg::Task const* a;
        rg::Task const* b;
        int waker;
        rg::Task* task; // result
        bool flag; // result
    };

    constexpr int MAXSUB = 4, MAXT = 400;

    struct TaskInfo
    {
        Tags tags;
        int emplaced, activated, ran;
    };

    struct SubInfo
    {
        Tags tags;
        bool solo, by_main; // a queue of its own, worked on by a thread of its own or the main thread
        bool no_wake, no_steal;
        bool pre; // type of dependencies
    };

    TaskInfo g_task[MAXT];
    int g_n;
    SubInfo g_sub[MAXSUB];
    int g_subs;
    std::atomic<long> g_emplaced, g_activated, g_deps, g_wakes, g_steals, g_resumes, g_solo, g_ran;

    //! a call of the tag-match scheduler
    struct Frame
    {
        std::vector<Call> calls;
        int inside = 0; // depth of calls of the registered schedulers
    };

    thread_local std::vector<Frame> t_frames;
    thread_local int t_who = -1; // solo threads: their scheduler

    Tags tags_of(int id)
    {
        return g_task[id].tags;
    }

    int id_of(rg::Task const& t)
    {
        return atoi(t.label.c_str());
    }

    //! what the model says
    int expected(Tags t)
    {
        for(int i = 0; i < g_subs; ++i)
        {
            bool all = true;
            for(int k = 0; k < 64; ++k)
                if(t[k] && !g_sub[i].tags[k])
                    all = false;
            if(all)
                return i;
        }
        return -1;
    }

    //! one call of a registered scheduler; what it calls of itself is its own business
    struct In
    {
        bool outer;

        In()
        {
            outer = t_frames.empty() || t_frames.back().inside++ == 0;
        }

        ~In()
        {
            if(!t_frames.empty())
                t_frames.back().inside--;
        }

        __attribute__((noinline)) void record(Call c)
        {
            if(!outer)
                return;
            if(t_frames.empty())
                found("TAGS", "scheduler %d: %s is called, but not by the tag-match scheduler", c.sub, kind_name[c.kind]);
            t_frames.back().calls.push_back(c);
        }
    };

    struct Def : rg::scheduler::DefaultScheduler
    {
        int me;

        Def(int me) : me(me)
        {
        }

        bool task_dependency_type(rg::Task const& a, rg::Task const& b) override
        {
            In in;
            in.record({me, DEP, &a, &b, 0, nullptr, g_sub[me].pre});
            return g_sub[me].pre;
        }

        void emplace_task(rg::Task& t) override
        {
            In in;
            in.record({me, EMPLACE, &t, nullptr, 0, nullptr, false});
            DefaultScheduler::emplace_task(t);
        }

        void activate_task(rg::Task& t) override
        {
            In in;
            in.record({me, ACTIVATE, &t, nullptr, 0, nullptr, false});
            DefaultScheduler::activate_task(t);
        }

        rg::Task* steal_task(rg::dispatch::thread::Worker& w) override
        {
            In in;
            rg::Task* t = g_sub[me].no_steal ? nullptr : DefaultScheduler::steal_task(w);
            in.record({me, STEAL, nullptr, nullptr, 0, t, false});
            return t;
        }

        bool wake(rg::scheduler::WakerId id) override
        {
            In in;
            bool r = g_sub[me].no_wake ? false : DefaultScheduler::wake(id);
            in.record({me, WAKE, nullptr, nullptr, id, nullptr, r});
            return r;
        }

        void wake_all() override
        {
            In in;
            in.record({me, WAKE_ALL, nullptr, nullptr, 0, nullptr, false});
            if(!g_sub[me].no_wake)
                DefaultScheduler::wake_all();
        }
    };

    struct Solo : rg::dispatch::thread::Worker
    {
        int me;

        template<typename... A>
        Solo(int me, A&&... a) : Worker(std::forward<A>(a)...)
                               , me(me)
        {
        }

        bool task_dependency_type(rg::Task const& a, rg::Task const& b) override
        {
            In in;
            in.record({me, DEP, &a, &b, 0, nullptr, g_sub[me].pre});
            return g_sub[me].pre;
        }

        void emplace_task(rg::Task& t)
        {
            In in;
            in.record({me, EMPLACE, &t, nullptr, 0, nullptr, false});
            Worker::emplace_task(t);
        }

        void activate_task(rg::Task& t)
        {
            In in;
            in.record({me, ACTIVATE, &t, nullptr, 0, nullptr, false});
            Worker::activate_task(t);
        }

        rg::Task* steal_task(rg::dispatch::thread::Worker&) override
        {
            In in;
            in.record({me, STEAL, nullptr, nullptr, 0, nullptr, false});
            return nullptr;
        }

        bool wake(rg::scheduler::WakerId id) override
        {
            In in;
            in.record({me, WAKE, nullptr, nullptr, id, nullptr, false});
            return false;
        }

        void wake_all() override
        {
            In in;
            in.record({me, WAKE_ALL, nullptr, nullptr, 0, nullptr, false});
        }

        void poll()
        {
            rg::Task* task;
            if((task = ready_queue.pop()))
                rg::SingletonContext::get().execute_task(*task);
            while(init_dependencies(task, true))
                if(task)
                {
                    rg::SingletonContext::get().execute_task(*task);
                    break;
                }
        }
    };

    //! forwards to the tag-match scheduler and checks what it does
    struct Spy : rg::scheduler::IScheduler
    {
        std::shared_ptr<rg::scheduler::IScheduler> tm;

        std::vector<Call> leave()
        {
            auto v = std::move(t_frames.back().calls);
            t_frames.pop_back();
            return v;
        }

        void enter()
        {
            t_frames.emplace_back();
        }

        bool task_dependency_type(rg::Task const& a, rg::Task const& b) override
        {
            enter();
            bool r = tm->task_dependency_type(a, b);
            auto v = leave();
            int e = expected(tags_of(id_of(b)));
            g_deps++;
            if(v.size() != 1 || v[0].kind != DEP || v[0].sub != e || v[0].a != &a || v[0].b != &b)
                found(
                    "TAGS",
                    "the dependency type is asked from scheduler %d (%zu calls) instead of %d",
                    v.empty() ? -1 : v[0].sub,
                    v.size(),
                    e);
            if(r != v[0].flag)
                found("TAGS", "the dependency type of scheduler %d is not passed on", e);
            return r;
        }

        void route(rg::Task& t, Kind k)
        {
            rg::Task* p = &t;
            int id = id_of(t);
            if(id < 0 || id >= __atomic_load_n(&g_n, __ATOMIC_RELAXED))
                found("TAGS", "%s of an unknown task", kind_name[k]);
            int e = expected(tags_of(id));
            if(k == EMPLACE)
            {
                g_emplaced++;
                if(__atomic_add_fetch(&g_task[id].emplaced, 1, __ATOMIC_SEQ_CST) != 1)
                    found("TAGS", "task %d is emplaced twice", id);
            }
            else
            {
                g_activated++;
                __atomic_add_fetch(&g_task[id].activated, 1, __ATOMIC_SEQ_CST);
            }
            enter();
            // the task may be gone afterwards
            if(k == EMPLACE)
                tm->emplace_task(t);
            else
                tm->activate_task(t);
            auto v = leave();
            if(v.size() != 1 || v[0].kind != k || v[0].sub != e || v[0].a != p)
                found(
                    "TAGS",
                    "%s of task %d: passed to scheduler %d by %s (%zu calls) instead of %d",
                    kind_name[k],
                    id,
                    v.empty() ? -1 : v[0].sub,
                    v.empty() ? "-" : kind_name[v[0].kind],
                    v.size(),
                    e);
        }

        void emplace_task(rg::Task& t) override
        {
            route(t, EMPLACE);
        }

        void activate_task(rg::Task& t) override
        {
            route(t, ACTIVATE);
        }

        rg::Task* steal_task(rg::dispatch::thread::Worker& w) override
        {
            enter();
            rg::Task* t = tm->steal_task(w);
            auto v = leave();
            g_steals++;
            int n = 0;
            unsigned asked = 0;
            for(auto& c : v)
            {
                if(c.kind != STEAL)
                    found("TAGS", "%s is called for steal_task", kind_name[c.kind]);
                asked |= 1u << c.sub;
                if(c.task)
                {
                    ++n;
                    if(c.task != t)
                        found("TAGS", "a task stolen from scheduler %d is lost", c.sub);
                }
            }
            if(t && !n)
                found("TAGS", "a task is stolen from nowhere");
            if(n > 1)
                found("TAGS", "a task is stolen twice");
            if(!t && asked != (1u << g_subs) - 1)
                found("TAGS", "not all schedulers are asked for tasks to steal (mask %x)", asked);
            return t;
        }

        bool wake(rg::scheduler::WakerId id) override
        {
            enter();
            bool r = tm->wake(id);
            auto v = leave();
            g_wakes++;
            bool any = false;
            unsigned asked = 0;
            for(auto& c : v)
            {
                if(c.kind != WAKE || c.waker != id)
                    found("TAGS", "wake(%d) leads to %s(%d)", (int) id, kind_name[c.kind], c.waker);
                asked |= 1u << c.sub;
                any |= c.flag;
            }
            if(r != any)
                found("TAGS", "wake(%d) returns %d", (int) id, r);
            if(!any && asked != (1u << g_subs) - 1)
                found("TAGS", "wake(%d) is not passed to all schedulers (mask %x)", (int) id, asked);
            return r;
        }

        void wake_all() override
        {
            enter();
            tm->wake_all();
            auto v = leave();
            unsigned asked = 0;
            for(auto& c : v)
            {
                if(c.kind != WAKE_ALL)
                    found("TAGS", "wake_all leads to %s", kind_name[c.kind]);
                asked |= 1u << c.sub;
            }
            if(asked != (1u << g_subs) - 1)
                found("TAGS", "wake_all is not passed to all schedulers (mask %x)", asked);
        }

        void idle() override
        {
            tm->idle();
            vf::point();
        }
    };

    //! the current thread may run task `id`
    __attribute__((noinline)) void check_thread(int id, char const* when)
    {
        int e = expected(tags_of(id));
        bool pool = rg::SingletonContext::get().current_worker != nullptr;
        if(g_sub[e].solo)
        {
            g_solo++;
            int want = e, have = pool ? -3 : t_who;
            if(have == -1 && g_sub[e].by_main)
                have = e;
            if(have != want)
                found("TAGS", "task %d, which belongs to a scheduler with its own thread, %s on another thread", id, when);
        }
        else if(!pool)
            found("TAGS", "task %d, which belongs to the workers, %s on another thread", id, when);
    }

    struct Prog
    {
        std::vector<rg::IOResource<long>> res;
        std::atomic<int> busy[3];
        bool ordered; // dependencies are on the end of the preceding task
        std::vector<Tags> usable; // tag sets which have a scheduler
    };

    Prog* g_p;

    int new_task(Rng& r)
    {
        int i = __atomic_fetch_add(&g_n, 1, __ATOMIC_SEQ_CST);
        if(i >= MAXT)
            abort();
        g_task[i] = TaskInfo{g_p->usable[r.upto(g_p->usable.size())], 0, 0, 0};
        return i;
    }

    template<typename B>
    void give_tags(Rng& r, B& b, Tags t)
    {
        // in one or several calls
        if(r.p(40))
            b.scheduling_tags(t);
        else
            for(int k = 0; k < 64; ++k)
                if(t[k])
                {
                    b.scheduling_tags({(unsigned) k});
                    if(r.p(20))
                        b.scheduling_tags({(unsigned) k, (unsigned) k});
                }
    }

    //! @return future of the id
    rg::Future<int> create(Rng& r, int depth, bool main)
    {
        int id = new_task(r);
        uint64_t seed = r();
        // leave room
        bool stack = r.p(50);
        int kids = depth < 2 && id < MAXT / 2 ? r.upto(3) : 0;
        int use = main && r.p(60) ? (int) r.upto(3) : -1;
        bool write = r.p(50);
        auto b = rg::emplace_task(
            [id, seed, stack, kids, depth, use, write]
            {
                Rng r(seed);
                check_thread(id, "starts");
                if(__atomic_add_fetch(&g_task[id].ran, 1, __ATOMIC_SEQ_CST) != 1)
                    found("TAGS", "task %d runs twice", id);
                g_ran++;
                vf::progress();
                if(use >= 0 && g_p->ordered)
                {
                    int old = g_p->busy[use].fetch_add(write ? 1000 : 1);
                    if(write ? old : old >= 1000)
                        found("TAGS", "task %d runs at the same time as one it depends on", id);
                }
                for(int k = 0; k < kids; ++k)
                {
                    auto f = create(r, depth + 1, false);
                    if(stack && r.p(60))
                    {
                        if(f.get() < 0)
                            abort();
                        g_resumes++;
                        check_thread(id, "continues");
                    }
                }
                if(use >= 0 && g_p->ordered)
                    g_p->busy[use].fetch_sub(write ? 1000 : 1);
                return id;
            });
        b.label(std::to_string(id).c_str());
        give_tags(r, b, g_task[id].tags);
        if(use >= 0)
            b.add_resource(write ? (rg::ResourceAccess) g_p->res[use].write() : (rg::ResourceAccess) g_p->res[use].read());
        if(stack)
            b.enable_stack_switching();
        return b.submit();
    }

    Tags random_tags(Rng& r)
    {
        unsigned t[] = {0, 1, 2, 31, 32, 40, 63};
        Tags b;
        for(auto k : t)
            if(r.p(30))
                b.set(k);
        return b;
    }

    void random_subs(Rng& r, bool solo)
    {
        g_subs = r.range(1, MAXSUB);
        bool any_wake = false, any_steal = false;
        bool main_used = false;
        for(int i = 0; i < g_subs; ++i)
        {
            SubInfo& s = g_sub[i];
            s = SubInfo();
            for(unsigned k : {0u, 1u, 2u, 31u, 32u, 40u, 63u})
                if(r.p(50))
                    s.tags.set(k);
            if(r.p(15))
                s.tags.reset();
            s.solo = solo && r.p(30);
            if(s.solo && !main_used && r.p(50))
                main_used = s.by_main = true;
            s.no_wake = r.p(30);
            s.no_steal = r.p(30);
            s.pre = r.p(15);
            any_wake |= !s.solo && !s.no_wake;
            any_steal |= !s.solo && !s.no_steal;
        }
        int k = r.upto(g_subs);
        if(!any_wake || !any_steal)
            g_sub[k].solo = g_sub[k].by_main = g_sub[k].no_wake = g_sub[k].no_steal = false;
    }

    std::string subs_text()
    {
        std::string s;
        for(int i = 0; i < g_subs; ++i)
        {
            s += fmt_(" sub%d:%s{", i, !g_sub[i].solo ? "pool" : g_sub[i].by_main ? "main" : "thread");
            for(int k = 0; k < 64; ++k)
                if(g_sub[i].tags[k])
                    s += std::to_string(k) + " ";
            s += fmt_("}%s%s%s", g_sub[i].no_wake ? " no-wake" : "", g_sub[i].no_steal ? " no-steal" : "", g_sub[i].pre ? " pre" : "");
        }
        return s;
    }

    using Alloc = rg::memory::ChunkedBumpAlloc<rg::memory::HwlocAlloc>;

    std::shared_ptr<rg::scheduler::TagMatch<64>> make_tm(
        Rng& r,
        std::vector<std::shared_ptr<Solo>>& solos,
        std::vector<std::unique_ptr<Alloc>>& allocs)
    {
        auto b = rg::scheduler::make_tag_match_scheduler();
        auto& ctx = rg::SingletonContext::get().hwloc_ctx;
        for(int i = 0; i < g_subs; ++i)
        {
            std::shared_ptr<rg::scheduler::IScheduler> s;
            if(g_sub[i].solo)
            {
                hwloc_obj_t obj = hwloc_get_obj_by_type(ctx.topology, HWLOC_OBJ_PU, 0);
                allocs.push_back(std::make_unique<Alloc>(rg::memory::HwlocAlloc(ctx, obj)));
                auto p = std::make_shared<Solo>(i, *allocs.back(), ctx, obj, 4);
                solos.push_back(p);
                s = p;
            }
            else
                s = std::make_shared<Def>(i);
            std::vector<unsigned> l;
            for(unsigned k = 0; k < 64; ++k)
                if(g_sub[i].tags[k])
                    l.push_back(k);
            if(l.empty() && r.p(70))
                b.add({}, s);
            else if(l.size() == 1)
                b.add({l[0]}, s);
            else if(l.size() == 2 && r.p(70))
                b.tag_match->add_scheduler({l[1], l[0]}, s);
            else
                b.tag_match->add_scheduler(g_sub[i].tags, s);
        }
        return b.tag_match;
    }

    struct Shared
    {
        int caught, passed, ran, inner;
    };

    Shared* g_sh;

    //! nothing supports the task: a process of its own, since the task stays counted
    bool refuse_process(Rng& r)
    {
        random_subs(r, false);
        Tags t;
        bool have = false;
        for(int i = 0; i < 60 && !have; ++i)
        {
            t = random_tags(r);
            if(r.p(20))
                t.set(17);
            // one tag too many for a scheduler
            if(r.p(50))
            {
                t = g_sub[r.upto(g_subs)].tags;
                t.set(r.upto(64));
            }
            have = expected(t) < 0;
        }
        if(!have)
            return false;
        std::string ts;
        for(int k = 0; k < 64; ++k)
            if(t[k])
                ts += std::to_string(k) + " ";
        int inner = r.upto(2), implicit = r.p(20);
        hx::describe(fmt_("no scheduler for {%s}%s%s;", ts.c_str(), inner ? ", from a task" : "", implicit ? ", implicit" : "") + subs_text());
        if(!g_sh)
            g_sh = (Shared*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        memset((void*) g_sh, 0, sizeof *g_sh);
        fflush(stdout);
        fflush(stderr);
        int workers = r.range(1, 3);
        uint64_t seed = r();
        pid_t p = fork();
        if(p == 0)
        {
            rlimit rl{0, 0};
            setrlimit(RLIMIT_CORE, &rl);
            int n = open(getenv("REFUSE_LOG") ? getenv("REFUSE_LOG") : "/dev/null", O_WRONLY | O_CREAT, 0600);
            dup2(n, 2);
            dup2(n, 1);
            signal(SIGABRT, SIG_DFL);
            std::set_terminate(abort);
            alarm(60);
            Rng r2(seed);
            std::vector<std::shared_ptr<Solo>> solos;
            std::vector<std::unique_ptr<Alloc>> allocs;
            t_frames.emplace_back(); // no spy
            auto tm = make_tm(r2, solos, allocs);
            g_n = 0;
            struct Plain : rg::scheduler::DefaultScheduler
            {
            };
            // plain schedulers
            for(auto& s : tm->sub_schedulers)
                s.s = std::make_shared<Plain>();
            rg::init(workers, tm);
            auto attempt = [&, t]
            {
                try
                {
                    auto b = rg::emplace_task([] { g_sh->ran = 1; });
                    b.scheduling_tags(t);
                    if(!implicit)
                        b.submit();
                    else
                    {
                        auto b2 = rg::emplace_task([] { g_sh->ran = 1; });
                        b2.scheduling_tags(t);
                    }
                    g_sh->passed = 1;
                }
                catch(std::exception&)
                {
                    g_sh->caught = 1;
                }
                usleep(2000);
                _exit(0);
            };
            if(inner)
            {
                Tags ok = tm->sub_schedulers[0].supported_tags;
                rg::emplace_task(attempt).scheduling_tags(ok).submit();
                for(;;)
                    usleep(1000);
            }
            else
                attempt();
        }
        int st;
        while(waitpid(p, &st, 0) < 0)
            ;
        if(g_sh->ran)
            found("TAGS", "a task which no scheduler supports runs");
        bool aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
        if(implicit ? !(g_sh->caught || aborted) : !g_sh->caught)
            found(
                "TAGS",
                "creating a task which no scheduler supports does not fail with an exception (%s, status %d)",
                g_sh->passed ? "accepted" : "process ended",
                st);
        hx::stat("refused");
        hx::case_done(true);
        return true;
    }
} // namespace

void tags_case(uint64_t seed)
{
    Rng r(seed);
    if(r.p(15) && refuse_process(r))
        return;
    int workers = r.range(1, 4), n = r.range(4, 30);
    random_subs(r, true);
    Prog p;
    g_p = &p;
    p.ordered = true;
    for(int i = 0; i < g_subs; ++i)
        p.ordered &= !g_sub[i].pre;
    for(int i = 0; i < 60; ++i)
    {
        Tags t = random_tags(r);
        if(r.p(30))
            t &= g_sub[r.upto(g_subs)].tags;
        if(r.p(10))
            t = g_sub[r.upto(g_subs)].tags;
        if(expected(t) >= 0)
            p.usable.push_back(t);
    }
    p.usable.push_back(Tags());
    for(auto& b : p.busy)
        b = 0;
    hx::describe(fmt_("tags workers=%d tasks=%d", workers, n) + subs_text());
    g_n = 0;
    mw::new_generation();
    vf::sched_begin(vf::random_cfg(seed * 31 + 17, hx::mode()));
    auto old_idle = rg::SingletonContext::get().idle;
    {
        std::vector<std::unique_ptr<Alloc>> allocs;
        std::vector<std::shared_ptr<Solo>> solos;
        auto spy = std::make_shared<Spy>();
        spy->tm = make_tm(r, solos, allocs);
        for(auto& s : solos)
            if(g_sub[s->me].by_main)
                rg::SingletonContext::get().idle = [s]
                {
                    s->poll();
                    vf::point();
                };
        rg::init(workers, spy);
        std::atomic<bool> stop{false};
        std::vector<std::thread> threads;
        for(auto& s : solos)
            if(!g_sub[s->me].by_main)
                threads.emplace_back(
                    [s, &stop]
                    {
                        t_who = s->me;
                        while(!stop)
                        {
                            s->poll();
                            vf::point();
                        }
                    });
        for(int i = 0; i < 3; ++i)
            p.res.emplace_back(0L);
        for(int i = 0; i < n; ++i)
        {
            {
                auto f = create(r, 0, true);
                if(r.p(10))
                    f.get();
            }
            if(r.p(4))
            {
                rg::barrier();
                hx::stat("barriers");
            }
        }
        rg::barrier();
        stop = true;
        for(auto& t : threads)
            t.join();
        p.res.clear();
        rg::finalize();
        rg::SingletonContext::get().idle = old_idle;
        solos.clear();
        spy.reset();
    }
    for(int i = 0; i < g_n; ++i)
    {
        if(g_task[i].ran != 1)
            found("TAGS", "task %d ran %d times", i, g_task[i].ran);
        if(g_task[i].emplaced != 1)
            found("TAGS", "task %d was emplaced %d times", i, g_task[i].emplaced);
    }
    check_no_blocks();
    vf::sched_end();
    hx::stat("emplaced", g_emplaced.exchange(0));
    hx::stat("activated", g_activated.exchange(0));
    hx::stat("dependencies", g_deps.exchange(0));
    hx::stat("wakes", g_wakes.exchange(0));
    hx::stat("steals", g_steals.exchange(0));
    hx::stat("resumed", g_resumes.exchange(0));
    hx::stat("on_own_thread", g_solo.exchange(0));
    hx::stat("tasks", g_ran.exchange(0));
    hx::case_done(g_subs > 1);
}
