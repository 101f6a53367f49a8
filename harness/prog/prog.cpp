// Interpreter of random task programs (pm.hpp) on the real runtime.
#include "../support/memwatch.hpp"
#include "../support/sched.hpp"
#include "pm.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/fieldresource.hpp>
#include <redGrapes/resource/ioresource.hpp>

#include <pthread.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>

#include <array>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace rg = redGrapes;
using namespace pm;

// ---------------------------------------------------------------- reporting

static Program const* g_prog;
static vf::SchedCfg g_cfg;
static char const* g_profile = "";
static uint64_t g_seed0 = 0, g_index = 0;
static char const* g_out = nullptr;
static volatile bool g_reported = false;

static void print_stats(FILE* f);

[[noreturn]] static void report(char const* cls, char const* text)
{
    if(__atomic_exchange_n(&g_reported, true, __ATOMIC_SEQ_CST))
        for(;;)
            pause();
    printf("FOUND %s: %s\n", cls, text);
    printf("  profile=%s seed=%llu schedule: %s\n", g_profile, (unsigned long long) g_index, vf::describe(g_cfg).c_str());
    printf("%s", vf::dump_threads().c_str());
    if(g_prog)
        printf("%s", g_prog->describe().c_str());
    print_stats(stdout);
    fflush(stdout);
    _exit(1);
}

static void hang(char const* kind)
{
    report(kind, "no thread can continue / no progress, although the program is not finished");
}

static void on_term()
{
    report("ABORT", "std::terminate called");
}

static void on_signal(int sig)
{
    char b[64];
    snprintf(b, sizeof b, "signal %d", sig);
    report("ABORT", b);
}

static void on_alarm(int)
{
    // wall clock watchdog: no verdict
    printf("INCONCLUSIVE watchdog profile=%s seed=%llu\n%s\n", g_profile, (unsigned long long) g_index, vf::dump_threads().c_str());
    fflush(stdout);
    _exit(4);
}

// ---------------------------------------------------------------- run state

struct Tracker
{
    int task;
    uint32_t magic = 0x7ac3e5d1;
    std::shared_ptr<int> heap; // something the closure owns

    explicit Tracker(int t) : task(t), heap(std::make_shared<int>(t))
    {
        tracker_born(task);
    }

    Tracker(Tracker const& o) : task(o.task), heap(o.heap)
    {
        tracker_born(task);
    }

    ~Tracker()
    {
        if(magic != 0x7ac3e5d1)
            violation("MEMORY", "captured object is corrupted or destroyed twice");
        magic = 0xdeaddead;
        tracker_died(task);
    }

    void check(int t) const
    {
        if(magic != 0x7ac3e5d1 || task != t || !heap || *heap != t)
            violation("MEMORY", "captured object has lost its value");
    }
};

struct FutBase
{
    virtual ~FutBase()
    {
    }
    virtual bool get() = 0; // true if the value is right
    virtual bool ready() = 0;
};

static int int_result(int t)
{
    return t * 7919 + 13;
}

static std::string string_result(int t)
{
    return "result of a task, long enough to live on the heap: " + std::to_string(t * 31 + 7);
}

template<typename R>
struct Fut1 : FutBase
{
    rg::Future<R> f;
    int t;

    Fut1(rg::Future<R>&& f, int t) : f(std::move(f)), t(t)
    {
    }

    bool get() override
    {
        if constexpr(std::is_same<R, void>::value)
        {
            f.get();
            return true;
        }
        else if constexpr(std::is_same<R, int>::value)
            return f.get() == int_result(t);
        else
            return f.get() == string_result(t);
    }

    bool ready() override
    {
        return f.is_ready();
    }
};

using Held = std::map<int, std::unique_ptr<FutBase>>;

struct PlainAcc
{
    rg::ResourceAccess ra;

    operator rg::ResourceAccess() const
    {
        return ra;
    }
};

using Vec = std::vector<uint64_t>;
using Arr2 = std::array<std::array<uint64_t, EXTENT2>, EXTENT2>;

struct Res
{
    int dims = 0;
    std::unique_ptr<rg::IOResource<Vec>> io;
    std::unique_ptr<rg::FieldResource<Vec>> f1;
    std::unique_ptr<rg::FieldResource<Arr2>> f2;

    void make(int d)
    {
        dims = d;
        if(d == 0)
            io.reset(new rg::IOResource<Vec>(4u));
        else if(d == 1)
            f1.reset(new rg::FieldResource<Vec>((size_t) EXTENT1));
        else
        {
            f2.reset(new rg::FieldResource<Arr2>());
            for(auto& r : *f2->obj)
                r.fill(0);
        }
    }

    void drop()
    {
        io.reset();
        f1.reset();
        f2.reset();
    }

    static rg::access::IOAccess mode(Acc const& a)
    {
        switch(a.mode)
        {
        case READ:
            return rg::access::IOAccess::read;
        case AADD:
            return rg::access::IOAccess::aadd;
        case AMUL:
            return rg::access::IOAccess::amul;
        default:
            return rg::access::IOAccess::write;
        }
    }

    static size_t lim(uint32_t x)
    {
        return x == INF ? std::numeric_limits<size_t>::max() : x;
    }

    static rg::access::AreaAccess area(Acc const& a, int d)
    {
        return rg::access::AreaAccess(std::array<size_t, 2>{lim(a.lo[d]), lim(a.hi[d])});
    }

    rg::ResourceAccess access(Acc const& a) const
    {
        if(dims == 0)
            return io->make_access(mode(a));
        if(dims == 1)
            return f1->make_access(rg::access::FieldAccess<1>(
                mode(a),
                rg::access::ArrayAccess<rg::access::AreaAccess, 1, rg::access::And_t>({area(a, 0)})));
        return f2->make_access(rg::access::FieldAccess<2>(
            mode(a),
            rg::access::ArrayAccess<rg::access::AreaAccess, 2, rg::access::And_t>({area(a, 0), area(a, 1)})));
    }

    uint64_t touch(Acc const& a, int t) const
    {
        uint64_t sum = 0;
        auto cell = [&](uint64_t& c)
        {
            switch(a.mode)
            {
            case WRITE:
                c = c * 31 + t;
                break;
            case READ:
                sum += c;
                break;
            case AADD:
            case AMUL:
                __atomic_fetch_add(&c, 1, __ATOMIC_RELAXED);
                break;
            }
        };
        if(dims == 0)
            for(auto& c : *io->obj)
                cell(c);
        else if(dims == 1)
            for(size_t i = a.lo[0]; i < EXTENT1 && i < a.hi[0]; ++i)
                cell((*f1->obj)[i]);
        else
            for(size_t i = a.lo[0]; i < EXTENT2 && i < a.hi[0]; ++i)
                for(size_t j = a.lo[1]; j < EXTENT2 && j < a.hi[1]; ++j)
                    cell((*f2->obj)[j][i]);
        return sum;
    }
};

struct EvSlot
{
    rg::scheduler::EventPtr ptr{rg::scheduler::T_UNINITIALIZED, nullptr, nullptr};
    std::atomic<bool> published{false}; // hands `ptr` over to the external notifier
};

struct Run
{
    Program const& P;
    std::vector<Res> res;
    std::vector<EvSlot> ev;
    bool root_done = false;

    Run(Program const& p) : P(p), res(p.res.size()), ev(p.events.size())
    {
    }
};

static Run* R;
static std::atomic<uint64_t> g_sink;

static int worker_id()
{
    return rg::Context::current_worker ? (int) rg::Context::current_worker->get_worker_id() : -1;
}

static void do_notify(int e)
{
    if(R->P.events[e].by == 0)
        (void) R->ev[e].published.load(std::memory_order_acquire);
    auto p = R->ev[e].ptr;
    if(R->P.events[e].waiters == 0)
        R->ev[e].ptr.external_event.reset();
    on_notify(e);
    p.notify();
}

static void interp(int t, Held& given);

// the value of the closure's padding, to vary the size of tasks
template<int N>
struct Pad
{
    unsigned char b[N];

    Pad(int t)
    {
        for(int i = 0; i < N; ++i)
            b[i] = (unsigned char) (t + i);
    }

    void check(int t) const
    {
        for(int i = 0; i < N; ++i)
            if(b[i] != (unsigned char) (t + i))
                violation("MEMORY", "captured bytes have changed");
    }
};

template<typename Ret, int N>
struct Body
{
    int t;
    Tracker tr;
    Pad<N> pad;
    std::shared_ptr<Held> given;

    template<typename... A>
    Ret operator()(A const&...)
    {
        tr.check(t);
        pad.check(t);
        interp(t, *given);
        tr.check(t);
        pad.check(t);
        if constexpr(std::is_same<Ret, int>::value)
            return int_result(t);
        else if constexpr(std::is_same<Ret, std::string>::value)
            return string_result(t);
    }
};

template<typename B>
static auto finish(B&& b, TaskSpec const& T, size_t first)
{
    // remaining accesses through the builder
    for(size_t i = first; i < T.acc.size(); ++i)
        b.add_resource(R->res[T.acc[i].res].access(T.acc[i]));
    if(T.ss)
        b.enable_stack_switching();
    b.label(("t" + std::to_string(T.id)).c_str());
    on_submit(T.parent, T.id);
    return b.submit();
}

template<typename Ret, int N>
static std::unique_ptr<FutBase> spawn2(TaskSpec const& T, std::shared_ptr<Held> given)
{
    using F = Fut1<Ret>;
    Body<Ret, N> body{T.id, Tracker(T.id), Pad<N>(T.id), given};
    auto acc = [&](size_t i) { return R->res[T.acc[i].res].access(T.acc[i]); };
    int id = T.id;
    size_t n = T.acc.size();
    bool full_io = n >= 1 && T.acc[0].dims == 0 && (T.acc[0].mode == WRITE || T.acc[0].mode == READ);
    if(T.style == 0 && n >= 1)
    {
        auto b = rg::emplace_task(std::move(body), PlainAcc{acc(0)});
        return std::unique_ptr<FutBase>(new F(finish(b, T, 1), id));
    }
    if(T.style == 1 && n >= 2)
    {
        auto b = rg::emplace_task(std::move(body), PlainAcc{acc(0)}, PlainAcc{acc(1)});
        return std::unique_ptr<FutBase>(new F(finish(b, T, 2), id));
    }
    if(T.style == 2 && full_io)
    {
        auto& r = *R->res[T.acc[0].res].io;
        if(T.acc[0].mode == WRITE)
        {
            auto b = rg::emplace_task(std::move(body), r.write());
            return std::unique_ptr<FutBase>(new F(finish(b, T, 1), id));
        }
        auto b = rg::emplace_task(std::move(body), r.read());
        return std::unique_ptr<FutBase>(new F(finish(b, T, 1), id));
    }
    auto b = rg::emplace_task(std::move(body));
    if(T.style == 3 && n >= 1 && n <= 3)
    {
        if(n == 1)
            b.resources({acc(0)});
        else if(n == 2)
            b.resources({acc(0), acc(1)});
        else
            b.resources({acc(0), acc(1), acc(2)});
        return std::unique_ptr<FutBase>(new F(finish(b, T, n), id));
    }
    return std::unique_ptr<FutBase>(new F(finish(b, T, 0), id));
}

static std::unique_ptr<FutBase> spawn(TaskSpec const& T, std::shared_ptr<Held> given)
{
    if(T.pad == 0)
        switch(T.result)
        {
        case 0:
            return spawn2<void, 1>(T, given);
        case 1:
            return spawn2<int, 1>(T, given);
        default:
            return spawn2<std::string, 1>(T, given);
        }
    if(T.pad == 1)
        return spawn2<void, 700>(T, given);
    return spawn2<int, 9000>(T, given);
}

static rg::TaskProperties::Patch make_patch(Action const& a)
{
    rg::TaskProperties::Patch::Builder b;
    for(auto& x : a.rm)
        b.remove_resources({R->res[x.res].access(x)});
    for(auto& x : a.add)
        b.add_resources({R->res[x.res].access(x)});
    return b;
}

static void introspect(int t)
{
    pm::count(stats.introspections);
    auto bt = rg::backtrace();
    size_t depth = 0;
    int x = t;
    for(; x > 0; x = R->P.tasks[x].parent)
    {
        if(depth >= bt.size())
            violation("BACKTRACE", "backtrace() is too short");
        if((uint64_t) bt[depth].get().task_id != task_id(x))
            violation("BACKTRACE", "backtrace() lists a wrong task");
        if(bt[depth].get().label != ("t" + std::to_string(x)).c_str())
            violation("BACKTRACE", "label of a task in backtrace() is wrong");
        ++depth;
    }
    if(depth != bt.size())
        violation("BACKTRACE", "backtrace() is too long");
    if(rg::scope_depth() != depth)
        violation("BACKTRACE", "scope_depth() is not the nesting depth");
    auto sp = rg::current_task_space();
    if(!sp)
        violation("BACKTRACE", "no current task space");
    if(t > 0 && (!sp->parent || (uint64_t) sp->parent->task_id != task_id(t)))
        violation("BACKTRACE", "current_task_space() does not belong to the running task");
    if(t == 0 && sp->parent)
        violation("BACKTRACE", "current_task_space() outside of tasks has a parent");
}

static void interp(int t, Held& given)
{
    auto const& T = R->P.tasks[t];
    uint64_t guard[16];
    for(int i = 0; i < 16; ++i)
        guard[i] = t * 1000003ull + i;
    auto check_guard = [&]
    {
        for(int i = 0; i < 16; ++i)
            if(guard[i] != t * 1000003ull + i)
                violation("LOCALS", "local variables of a task changed while it was suspended");
    };
    if(t)
    {
        on_begin(t, worker_id());
        vf::progress();
        if(!rg::Context::current_task)
            violation("BACKTRACE", "no current task inside of a task");
        on_task_id(t, rg::Context::current_task->task_id);
        if(R->P.tasks[t].id % 3 == 0)
            introspect(t);
    }
    for(int r : T.local_res)
        R->res[r].make(R->P.res[r].dims);
    {
        Held held;
        auto find = [&](int x) -> std::unique_ptr<FutBase>&
        {
            auto it = held.find(x);
            if(it != held.end())
                return it->second;
            it = given.find(x);
            if(it == given.end())
                violation("INTERNAL", "future is not held");
            return it->second;
        };
        for(auto const& a : T.body)
        {
            switch(a.act)
            {
            case Act::SPAWN:
                {
                    auto& C = R->P.tasks[a.x];
                    auto g = std::make_shared<Held>();
                    for(int x : C.given)
                    {
                        (*g)[x] = std::move(held.at(x));
                        held.erase(x);
                    }
                    auto f = spawn(C, g);
                    g.reset();
                    if(a.fut == Fut::DROP)
                        f.reset();
                    else
                        held[a.x] = std::move(f);
                    break;
                }
            case Act::GET:
                {
                    auto& f = find(a.x);
                    on_wait(t, worker_id(), false, a.x);
                    bool ok = f->get();
                    on_wait_done(t, worker_id(), false, a.x);
                    vf::progress();
                    on_result(a.x, ok);
                    on_release(a.x);
                    f.reset();
                    check_guard();
                    break;
                }
            case Act::DROP:
                on_release(a.x);
                find(a.x).reset();
                pm::count(stats.drops);
                break;
            case Act::READY:
                on_ready(a.x, find(a.x)->ready());
                break;
            case Act::TOUCH:
                g_sink.store(R->res[a.add[0].res].touch(a.add[0], t), std::memory_order_relaxed);
                pm::count(stats.touches);
                break;
            case Act::EVENT:
                {
                    auto e = rg::create_event();
                    if(!e)
                        violation("EVENT", "create_event() in a task returns no event");
                    R->ev[a.x].ptr = *e;
                    R->ev[a.x].published.store(true, std::memory_order_release);
                    on_event_created(a.x);
                    break;
                }
            case Act::NOEVENT:
                if(rg::create_event())
                    violation("EVENT", "create_event() outside of a task returns an event");
                break;
            case Act::NOTIFY:
                do_notify(a.x);
                vf::progress();
                break;
            case Act::YIELD:
                on_wait(t, worker_id(), true, a.x);
                rg::yield(R->ev[a.x].ptr);
                on_wait_done(t, worker_id(), true, a.x);
                vf::progress();
                check_guard();
                break;
            case Act::DEMOTE:
                {
                    auto p = make_patch(a);
                    on_demote(t, a.rm, a.add);
                    rg::update_properties(p);
                    break;
                }
            case Act::BADUPD:
                {
                    auto p = make_patch(a);
                    bool refused = false;
                    try
                    {
                        rg::update_properties(p);
                    }
                    catch(std::exception const&)
                    {
                        refused = true;
                    }
                    if(!refused)
                        violation("UPDATE", "update_properties() accepts a patch that extends the accesses");
                    on_refused(t);
                    break;
                }
            case Act::BARRIER:
                rg::barrier();
                on_barrier_return();
                vf::progress();
                break;
            case Act::INTROSPECT:
                introspect(t);
                break;
            }
            if(t && rg::Context::current_task && (uint64_t) rg::Context::current_task->task_id != task_id(t))
                violation("BACKTRACE", "the current task changed under a running task");
            on_step(t);
        }
        for(auto& h : held)
            on_release(h.first);
    }
    check_guard();
    if(t)
    {
        on_end(t);
        vf::progress();
    }
}

static bool g_ctrl;

static void* controller(void* arg)
{
    uint64_t s = *(uint64_t*) arg;
    auto rnd = [&]
    {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return s >> 33;
    };
    while(true)
    {
        // notify some events right away
        for(int k = rnd() % 4; k > 0; --k)
        {
            for(int i = rnd() % 40; i > 0; --i)
                vf::point();
            int e = pick_withheld(rnd(), true);
            if(e >= 0)
            {
                do_notify(e);
                vf::progress();
            }
        }
        if(g_ctrl)
        {
            vf::wait_quiescent();
            check_quiescent();
        }
        else
        {
            struct timespec ts = {0, (long) (rnd() % 200) * 1000};
            nanosleep(&ts, nullptr);
        }
        int e = pick_withheld(rnd(), false);
        if(e >= 0)
        {
            do_notify(e);
            vf::progress();
            continue;
        }
        if(__atomic_load_n(&R->root_done, __ATOMIC_ACQUIRE) && all_done())
            return nullptr;
        if(g_ctrl && __atomic_load_n(&R->root_done, __ATOMIC_ACQUIRE))
            report("STUCK", "nothing left to notify, nothing can run, but tasks are unfinished");
    }
}

static void run_one(uint64_t seed, Profile const& prof, vf::Mode mode)
{
    Program P = generate(seed, prof);
    g_prog = &P;
    g_index = seed;
    g_cfg = vf::random_cfg(seed * 31 + 17, mode);
    g_ctrl = mode == vf::Mode::CTRL;
    run_begin(P, g_ctrl);
    mw::new_generation();
    vf::sched_begin(g_cfg);
    rg::init(P.workers);
    if(mw::old_chunks())
        violation("LEAK", "init() keeps arena memory of the previous cycle");
    {
        Run run(P);
        R = &run;
        for(size_t i = 0; i < P.res.size(); ++i)
            if(P.res[i].owner == 0)
                run.res[i].make(P.res[i].dims);
        pthread_t c;
        uint64_t cs = seed ^ 0xabcdef;
        if(P.controller)
            pthread_create(&c, nullptr, controller, &cs);
        Held none;
        interp(0, none);
        __atomic_store_n(&run.root_done, true, __ATOMIC_RELEASE);
        if(P.finalize_direct)
        {
            rg::finalize();
            if(P.controller)
                pthread_join(c, nullptr);
            on_finalized();
        }
        else
        {
            pthread_join(c, nullptr);
            rg::finalize();
            on_finalized();
        }
        if(g_ctrl && vf::live_threads() != 1)
            violation("FINALIZE", "finalize() leaves worker threads running");
        for(auto& e : run.ev)
            e.ptr.external_event.reset();
        for(auto& r : run.res)
            r.drop();
    }
    if(mw::stats().live_blocks)
    {
        char buf[300];
        mw::describe_live(buf, sizeof(buf));
        violation("LEAK", std::string("blocks are not returned after finalize(): ") + buf);
    }
    vf::sched_end();
    run_end();
    R = nullptr;
    g_prog = nullptr;
}

static uint64_t g_nontrivial;
static std::string g_need;

static uint64_t observed(std::string const& name)
{
    auto& s = pm::stats;
#define S(x)                                                                                                          \
    if(name == #x)                                                                                                    \
        return s.x;
    S(programs)
    S(tasks)
    S(children)
    S(order_checks)
    S(overlaps)
    S(quiescent)
    S(blocked_seen)
    S(events)
    S(ext_notify)
    S(waits)
    S(suspended)
    S(migrated)
    S(gets)
    S(demotions)
    S(refused)
    S(released)
    S(held)
    S(barriers)
    S(introspections)
    S(touches)
    S(trackers)
#undef S
    return s.programs;
}

static void print_stats(FILE* f)
{
    auto& s = pm::stats;
    auto& v = vf::sched_stats();
    auto m = mw::stats();
    fprintf(f, "STATS {");
    fprintf(
        f,
        "\"arena_blocks\":%llu,\"arena_chunks\":%llu,\"arena_chunks_freed\":%llu,",
        (unsigned long long) m.blocks,
        (unsigned long long) m.chunks,
        (unsigned long long) m.chunks_freed);
#define S(x) fprintf(f, "\"%s\":%llu,", #x, (unsigned long long) s.x);
    S(programs)
    S(distinct_programs)
    S(tasks)
    S(children)
    S(max_depth)
    S(order_checks)
    S(overlaps)
    S(quiescent)
    S(blocked_seen)
    S(events)
    S(ext_notify)
    S(waits)
    S(suspended)
    S(migrated)
    S(gets)
    S(ready_true)
    S(ready_false)
    S(drops)
    S(demotions)
    S(refused)
    S(released)
    S(held)
    S(barriers)
    S(introspections)
    S(touches)
    S(trackers)
#undef S
#define S(x) fprintf(f, "\"%s\":%llu,", #x, (unsigned long long) v.x);
    S(points)
    S(switches)
    S(preemptions)
    S(delays)
    S(threads)
    S(signatures)
    S(pair_bits)
    S(guards_hit)
    S(guards_total)
#undef S
    fprintf(f, "\"nontrivial\":%llu}\n", (unsigned long long) g_nontrivial);
}

int main(int argc, char** argv)
{
    vf::fix_addresses(argv);
    uint64_t seed = 1, count = 10;
    std::string profile = "mixed", mode = "ctrl";
    bool dump = false;
    unsigned watchdog = 300, budget = 0;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--seed")
            seed = strtoull(next().c_str(), nullptr, 0);
        else if(a == "--count")
            count = strtoull(next().c_str(), nullptr, 0);
        else if(a == "--profile")
            profile = next();
        else if(a == "--mode")
            mode = next();
        else if(a == "--watchdog")
            watchdog = atoi(next().c_str());
        else if(a == "--budget")
            budget = atoi(next().c_str());
        else if(a == "--need")
            g_need = next();
        else if(a == "--dump")
            dump = true;
    }
    auto* prof = find_profile(profile);
    if(!prof)
    {
        fprintf(stderr, "no such profile\n");
        return 2;
    }
    g_profile = prof->name;
    if(dump)
    {
        for(uint64_t i = 0; i < count; ++i)
            printf("seed %llu\n%s", (unsigned long long) (seed + i), generate(seed + i, *prof).describe().c_str());
        return 0;
    }
    spdlog::set_level(spdlog::level::off);
    vf::on_hang = hang;
    pm::on_violation = [](char const* c, char const* t) { report(c, t); };
    std::set_terminate(on_term);
    mw::on_fail = [](char const* t) { report("MEMORY", t); };
#if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
    signal(SIGABRT, on_signal);
#else
    for(int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL})
        signal(s, on_signal);
#endif
    signal(SIGALRM, on_alarm);
    vf::Mode m = mode == "ctrl" ? vf::Mode::CTRL : mode == "delay" ? vf::Mode::DELAY : vf::Mode::OFF;
    time_t t0 = time(nullptr);
    for(uint64_t i = 0; i < count; ++i)
    {
        if(budget && time(nullptr) - t0 >= (time_t) budget)
            break;
        alarm(watchdog);
        uint64_t d0 = pm::stats.distinct_programs, n0 = observed(g_need);
        run_one(seed + i, *prof, m);
        if(pm::stats.distinct_programs > d0 && observed(g_need) > n0)
            ++g_nontrivial;
    }
    alarm(0);
    std::string d = generate(seed, *prof).describe();
    for(char& c : d)
        if(c == '\n')
            c = ';';
    if(d.size() > 700)
        d = d.substr(0, 700) + "...";
    printf("SAMPLE seed %llu mode %s: %s\n", (unsigned long long) seed, mode.c_str(), d.c_str());
    print_stats(stdout);
    printf("DONE\n");
    fflush(stdout);
    _exit(0);
}
