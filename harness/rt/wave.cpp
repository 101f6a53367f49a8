// C15: what finished tasks used is given back. Waves of tasks of all kinds run one after another; whenever everything has
// finished, nothing of a wave may be left: its objects are destroyed, its blocks are returned, its chunks given back.
#include "rt.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/fieldresource.hpp>
#include <redGrapes/resource/ioresource.hpp>
#include <redGrapes/scheduler/event.hpp>

#include <atomic>
#include <deque>
#include <memory>
#include <sched.h>
#include <time.h>
#include <unistd.h>

namespace rg = redGrapes;
using hx::found;
using hx::Rng;

namespace
{
    enum
    {
        TOKEN = 1,
        RESULT = 2,
        DATA = 3
    };

    std::atomic<long> g_ran, g_created;

    //! counts its instances, with memory of its own outside of the arenas
    template<int KIND>
    struct Counted
    {
        long* v;

        explicit Counted(long x) : v(new long(x))
        {
            hx::born(this, KIND);
        }

        Counted(Counted const& o) : v(new long(o.get()))
        {
            hx::born(this, KIND);
        }

        Counted(Counted&& o) noexcept : v(o.v)
        {
            o.v = nullptr;
            hx::born(this, KIND);
        }

        Counted() : v(nullptr)
        {
            hx::born(this, KIND);
        }

        Counted& operator=(Counted const& o)
        {
            return *this = Counted(o);
        }

        Counted& operator=(Counted&& o)
        {
            if(!hx::alive(this, KIND))
                found("RECLAIM", "an object of kind %d is assigned after its end", KIND);
            std::swap(v, o.v);
            return *this;
        }

        ~Counted()
        {
            hx::died(this, KIND);
            delete v;
        }

        long get() const
        {
            if(!hx::alive(this, KIND))
                found("RECLAIM", "an object of kind %d is used after its end", KIND);
            return v ? *v : -1;
        }
    };

    using Token = Counted<TOKEN>;
    using Result = Counted<RESULT>;
    using Data = Counted<DATA>;

    struct Big : Token
    {
        char fill[700];

        explicit Big(long v) : Token(v)
        {
        }
    };

    using Res = rg::IOResource<long>;
    using Field = rg::FieldResource<std::vector<long>>;

    struct Shared
    {
        std::vector<Res> io;
        std::vector<Field> field;
    };

    //! parameters of a wave
    struct Wave
    {
        int tasks;
        unsigned kinds; // bits
        int local; // percentage of tasks on resources of their own
        int depth;
        int follow; // percentage of tasks on a shared resource
    };

    enum Kind
    {
        PLAIN,
        BIG,
        CHILDREN,
        EVENT,
        SUSPEND,
        DEMOTE,
        KINDS
    };

    void work(Rng& r)
    {
        for(int i = r.upto(3); i > 0; --i)
            vf::point();
        vf::progress();
        g_ran++;
    }

    std::deque<rg::Future<Result>> const none;

    void fill(Rng& r, Wave const& w, Shared& sh, int depth, bool can_wait);

    //! creates one task
    template<typename F>
    auto start(Rng& r, Wave const& w, Shared& sh, bool stack, F f)
    {
        g_created++;
        auto b = rg::emplace_task(std::move(f));
        if(stack)
            b.enable_stack_switching();
        return b;
    }

    //! resources of a task: shared ones, or one which lives as long as the tasks that use it
    template<typename B>
    void add_resources(Rng& r, Wave const& w, Shared& sh, B& b)
    {
        for(int k = r.p(w.follow) ? r.range(1, 3) : 0; k > 0; --k)
        {
            if(r.p(60) || sh.field.empty())
            {
                auto& x = sh.io[r.upto(sh.io.size())];
                if(r.p(50))
                    b.add_resource(x.read());
                else
                    b.add_resource(x.write());
            }
            else
            {
                auto& x = sh.field[r.upto(sh.field.size())];
                size_t a = r.upto(8), e = a + r.range(1, 8 - a);
                if(r.p(50))
                    b.add_resource(x.read().area({a}, {e}));
                else
                    b.add_resource(x.write().area({a}, {e}));
            }
        }
    }

    void one_task(Rng& r, Wave const& w, Shared& sh, int depth, bool can_wait, std::deque<rg::Future<Result>>& futures)
    {
        uint64_t s = r();
        unsigned kind;
        do
            kind = r.upto(KINDS);
        while(!(w.kinds >> kind & 1));
        Token t((long) s);
        auto finish = [&](auto b, bool add = true)
        {
            if(add)
                add_resources(r, w, sh, b);
            auto f = b.submit();
            if(r.p(30))
                futures.push_back(std::move(f));
            else if(can_wait && r.p(30))
            {
                if(f.get().get() != (long) s)
                    found("RECLAIM", "wrong result");
            }
        };
        switch(kind)
        {
        case BIG:
            finish(start(
                r,
                w,
                sh,
                r.p(50),
                [b = Big(s)]
                {
                    Rng r(b.get());
                    work(r);
                    return Result(b.get());
                }));
            break;
        case CHILDREN:
            if(depth < w.depth)
            {
                bool stack = r.p(40);
                // the resources of children have to be covered by those of the task, so they are made here
                finish(
                    start(
                        r,
                        w,
                        sh,
                        stack,
                        [t, w, depth, stack]
                        {
                            Rng r(t.get());
                            Shared mine;
                            mine.io.emplace_back(0L);
                            if(r.p(50))
                                mine.io.emplace_back(1L);
                            if(r.p(30))
                                mine.field.emplace_back(16);
                            Wave v = w;
                            v.tasks = r.range(0, 5);
                            fill(r, v, mine, depth + 1, stack);
                            work(r);
                            return Result(t.get());
                        }),
                    true);
                break;
            }
            [[fallthrough]];
        case PLAIN:
            finish(start(
                r,
                w,
                sh,
                r.p(20),
                [t]
                {
                    Rng r(t.get());
                    work(r);
                    return Result(t.get());
                }));
            break;
        case EVENT:
            {
                // the task is finished by its child, and by the end of the child
                finish(start(
                    r,
                    w,
                    sh,
                    false,
                    [t]
                    {
                        Rng r(t.get());
                        auto ev = rg::create_event();
                        if(!ev)
                            found("RECLAIM", "no event");
                        g_created++;
                        rg::emplace_task(
                            [t, e = *ev]() mutable
                            {
                                Rng r(t.get());
                                work(r);
                                e.notify();
                                work(r);
                                g_ran--;
                            });
                        work(r);
                        return Result(t.get());
                    }));
                break;
            }
        case SUSPEND:
            // waits for a task of its own
            finish(start(
                r,
                w,
                sh,
                true,
                [t]
                {
                    Rng r(t.get());
                    Token u(t);
                    g_created++;
                    auto f = rg::emplace_task(
                                 [u]
                                 {
                                     Rng r(u.get());
                                     work(r);
                                     return Result(u.get());
                                 })
                                 .submit();
                    if(f.get().get() != t.get())
                        found("RECLAIM", "wrong result");
                    work(r);
                    return Result(u.get());
                }));
            break;
        case DEMOTE:
            {
                auto x = sh.io[r.upto(sh.io.size())].write();
                finish(
                    start(
                        r,
                        w,
                        sh,
                        false,
                        [t, x]
                        {
                            Rng r(t.get());
                            rg::TaskProperties::Patch::Builder b;
                            b.remove_resources({x.write()});
                            b.add_resources({x.read()});
                            rg::update_properties(b);
                            work(r);
                            return Result(t.get());
                        })
                        .add_resource(x.write()),
                    false);
                break;
            }
        }
    }

    void fill(Rng& r, Wave const& w, Shared& sh, int depth, bool can_wait)
    {
        std::deque<rg::Future<Result>> futures;
        for(int i = 0; i < w.tasks; ++i)
        {
            if(r.p(w.local))
            {
                // a resource and an object with it, for a few tasks
                Shared mine;
                mine.io.emplace_back(0L);
                rg::IOResource<Data> io(7L);
                for(int k = r.range(1, 4); k > 0; --k)
                {
                    g_created++;
                    rg::emplace_task(
                        [](auto x)
                        {
                            if(x->get() != 7)
                                found("RECLAIM", "the object of a resource changed");
                            vf::progress();
                            g_ran++;
                        },
                        io.read());
                }
                if(depth == 0)
                    one_task(r, w, mine, depth, can_wait, futures);
            }
            else
                one_task(r, w, sh, depth, can_wait, futures);
            while(!futures.empty() && r.p(40))
            {
                if(can_wait && r.p(50))
                    (void) futures.front().get().get();
                futures.pop_front();
            }
        }
        // the others are never taken
    }

    std::string what_is_left(int workers, long base)
    {
        auto s = mw::stats();
        std::string t;
        for(int k : {TOKEN, RESULT, DATA})
            if(hx::live_objects(k))
                t += fmt_(" %ld %s", hx::live_objects(k), k == TOKEN ? "callables" : k == RESULT ? "results" : "objects of resources");
        if((long) s.live_blocks > base)
            t += fmt_(" %ld blocks more than before", (long) s.live_blocks - base);
        // each arena may keep its current chunk and an erased one, and one behind each chunk in use
        if(mw::unused_chunks() > 3u * workers + s.live_chunks / 2)
            t += fmt_(" %llu unused chunks for %d arenas", (unsigned long long) mw::unused_chunks(), workers);
        return t;
    }

    void settle(int workers, long base, int wave)
    {
        timespec a, b;
        clock_gettime(CLOCK_MONOTONIC, &a);
        if(hx::mode() == vf::Mode::CTRL)
            vf::wait_quiescent();
        for(;;)
        {
            std::string t = what_is_left(workers, base);
            if(t.empty())
                return;
            clock_gettime(CLOCK_MONOTONIC, &b);
            if(hx::mode() == vf::Mode::CTRL || b.tv_sec - a.tv_sec > 20)
            {
                char buf[300];
                mw::describe_live(buf, sizeof buf);
                found("RECLAIM", "after wave %d there are still:%s (blocks %s)", wave, t.c_str(), buf);
            }
            usleep(200);
        }
    }
    //! tasks are created all the time, a limited number of them is not finished
    void stream(Rng& r, Shared& sh, int workers, long base)
    {
        unsigned window = r.range(1, 30);
        long n = (hx::mode() == vf::Mode::CTRL ? 15 : 40) * window + r.upto(500);
        int readers = r.p(50) ? 0 : r.upto(50);
        bool one = r.p(50);
        int work = r.p(50) ? 0 : r.range(1, 60);
        bool ahead = r.p(50);
        if(ahead)
        {
            // long tasks in a row: the other workers prepare the following ones in the meantime
            window = r.range(6, 14);
            n = 60 * window + r.upto(200);
            readers = 0;
            one = true;
            work = r.range(60, 250);
        }
        long most = 0;
        std::deque<rg::Future<Result>> q;
        mw::reset_peaks();
        for(long i = 0; i < n; ++i)
        {
            auto& x = sh.io[one ? 0 : r.upto(sh.io.size())];
            Token t(i);
            auto b = rg::emplace_task(
                [t, work]
                {
                    for(int i = work; i > 0; --i)
                        vf::point();
                    vf::progress();
                    g_ran++;
                    return Result(t.get());
                });
            if(r.p(readers))
                b.add_resource(x.read());
            else
                b.add_resource(x.write());
            g_created++;
            q.push_back(b.submit());
            if(q.size() > window)
            {
                if(q.front().get().get() != i - (long) window)
                    found("RECLAIM", "wrong result");
                q.pop_front();
                auto s = mw::stats();
                long limit = base + 12 * (window + workers) + 60;
                most = std::max(most, (long) s.live_blocks - base);
                if((long) s.live_blocks > limit)
                    found(
                        "RECLAIM",
                        "%ld blocks are live after %ld tasks of which %u are unfinished (limit %ld, before %ld)",
                        (long) s.live_blocks,
                        i,
                        window,
                        limit,
                        base);
            }
        }
        while(!q.empty())
        {
            q.front().get();
            q.pop_front();
        }
        hx::stat("streams");
        hx::stat("streamed", n);
        hx::stat_max("max_blocks_per_task_x100", 100 * most / (window + workers));
    }
} // namespace

void wave_case(uint64_t seed)
{
    Rng r(seed);
    hx::reset_objects();
    g_ran = g_created = 0;
    int cycles = r.p(20) ? 2 : 1;
    vf::sched_begin(vf::random_cfg(seed * 31 + 17, hx::mode()));
    std::string d;
    bool many = false;
    for(int c = 0; c < cycles; ++c)
    {
        int workers = r.p(10) ? r.range(9, 24) : r.range(1, 5);
        int nio = r.range(1, 4), nfield = r.upto(3);
        int waves = hx::mode() == vf::Mode::CTRL ? r.range(3, 9) : r.range(4, 14);
        d += fmt_("waves workers=%d waves=%d resources=%d+%d", workers, waves, nio, nfield);
        hx::describe(d);
        mw::new_generation();
        rg::init(workers);
        if(mw::old_chunks())
            found("RECLAIM", "%llu chunks of an earlier cycle are still there", (unsigned long long) mw::old_chunks());
        long base0 = mw::stats().live_blocks;
        {
            Shared sh;
            for(int i = 0; i < nio; ++i)
                sh.io.emplace_back(0L);
            for(int i = 0; i < nfield; ++i)
                sh.field.emplace_back(16);
            // what each long-lived resource holds: itself, the current chunk of its list of users and erased ones which
            // are not unlinked yet
            long base = mw::stats().live_blocks + 3 * (nio + nfield);
            Wave w{};
            int stream_at = r.p(75) ? r.upto(waves) : -1;
            uint64_t before = mw::stats().chunks;
            for(int k = 0; k < waves; ++k)
            {
                if(k == 0 || r.p(40))
                {
                    w.tasks = r.p(20) ? r.range(20, 90) : r.range(0, 15);
                    if(hx::mode() != vf::Mode::CTRL && r.p(20))
                        w.tasks = 150;
                    do
                        w.kinds = r.upto(1 << KINDS) | (r.p(50) ? 1 : 0);
                    while(!w.kinds);
                    w.local = r.p(50) ? 0 : r.upto(60);
                    w.depth = r.range(0, 3);
                    w.follow = r.p(30) ? 0 : r.range(20, 100);
                }
                many = many || w.tasks > 5;
                Rng q(r());
                if(k == stream_at)
                    stream(q, sh, workers, base);
                else
                    fill(q, w, sh, 0, true);
                rg::barrier();
                settle(workers, base, k);
                hx::stat("waves");
            }
            hx::stat("replaced_chunks", mw::stats().chunks - before);
            sh.io.clear();
            sh.field.clear();
            settle(workers, base0, waves);
        }
        rg::finalize();
        check_no_blocks();
        if(hx::live_objects(-1))
            found("RECLAIM", "%ld objects are left after finalize()", hx::live_objects(-1));
    }
    vf::sched_end();
    hx::stat("tasks", g_ran);
    if(g_ran < g_created)
        found("RECLAIM", "%ld of %ld tasks ran", g_ran.load(), g_created.load());
    hx::stat_max("max_blocks", mw::stats().max_live_blocks);
    hx::case_done(many);
}
