// Direct concurrent use of the containers and primitives redGrapes is built from:
//   list   ChunkedList                      arena  ChunkedBumpAlloc over HwlocAlloc
//   cv     CondVar                          spin   SpinLock
//   bits   AtomicBitfield
// Threads run random scripts; every operation is recorded with its start and end on a global clock and the
// history is judged after the run (exactly-once visits, lost wake-ups, exclusion, claims, overlap of blocks).
#include "../support/hx.hpp"
#include "../support/memwatch.hpp"

#include <redGrapes/memory/chunked_bump_alloc.hpp>
#include <redGrapes/memory/hwloc_alloc.hpp>
#include <redGrapes/sync/cv.hpp>
#include <redGrapes/sync/spinlock.hpp>
#include <redGrapes/util/bitfield.hpp>
#include <redGrapes/util/chunked_list.hpp>

#include <spdlog/spdlog.h>

#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <memory>
#include <mutex>
#include <optional>
#include <set>
#include <thread>
#include <vector>

namespace rg = redGrapes;
using hx::found;
using hx::Rng;
using hx::tick;

static uint64_t relaxed(uint64_t const& x)
{
    return __atomic_load_n(&x, __ATOMIC_RELAXED);
}

static std::string fmt_(char const* f, ...) __attribute__((format(printf, 1, 2)));

static std::string fmt_(char const* f, ...)
{
    char b[400];
    va_list l;
    va_start(l, f);
    vsnprintf(b, sizeof b, f, l);
    va_end(l);
    return b;
}

// ------------------------------------------------------------------ list

struct Elem
{
    uint64_t magic = 0xE1E3E17700000000ull;
    int id = -1;
    uint64_t payload[2] = {0, 0};

    explicit Elem(int id) : magic(0xE1E3E17700000000ull | (unsigned) id), id(id)
    {
        payload[0] = payload[1] = id * 77ull;
        hx::born(this, id);
    }

    Elem(Elem const& o) : magic(o.magic), id(o.id)
    {
        if(!o.ok())
            found("LIFETIME", "a dead or damaged element (id %d) is copied", o.id);
        payload[0] = o.payload[0];
        payload[1] = o.payload[1];
        hx::born(this, id);
    }

    Elem& operator=(Elem const&) = delete;

    ~Elem()
    {
        hx::died(this, id);
        magic = 0xDEAD;
        payload[0] = payload[1] = 1;
    }

    bool ok() const
    {
        return magic == (0xE1E3E17700000000ull | (unsigned) id) && payload[0] == id * 77ull && payload[1] == id * 77ull
               && hx::alive(this, id);
    }

    bool operator==(Elem const& o) const
    {
        return id == o.id;
    }
};

struct HxAlloc
{
    rg::memory::Block allocate(size_t n)
    {
        return rg::memory::Block{(uintptr_t) hx::mem_alloc(n), n};
    }

    void deallocate(rg::memory::Block b)
    {
        hx::mem_free((void*) b.ptr);
    }
};

struct ElemRec
{
    int thread = -1;
    int pos = -1; // position in the pushes of its thread
    uint64_t push0 = 0, push1 = 0, rem0 = 0, rem1 = 0;
    uint64_t claimed = 0;
};

struct IterRec
{
    uint64_t t0, t1;
    bool complete;
    int from; // id at which it started, -1: rbegin()
    std::vector<int> seen;
};

enum
{
    MAXT = 5,
    PER_THREAD = 400
};

static ElemRec g_elem[MAXT * PER_THREAD];

static bool claim(int id)
{
    uint64_t z = 0;
    return __atomic_compare_exchange_n(&g_elem[id].claimed, &z, 1, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED);
}

template<size_t CS>
struct ListCase
{
    using List = rg::ChunkedList<Elem, CS, HxAlloc>;
    using It = typename List::MutBackwardIterator;
    List* list;
    int n_threads, ops;
    unsigned w_push, w_remove, w_iter, w_iter_rem, w_hold, w_erase;
    std::vector<std::vector<IterRec>> iters;
    std::vector<int> pushed;

    struct HeldIt
    {
        int id;
        std::unique_ptr<It> it;
    };

    template<typename I>
    void check_at(I& it, int& id)
    {
        if(!it.is_valid())
            found("LIST", "an iterator before the end points at no element");
        if(!it->ok())
            found("LIFETIME", "an iterator points at a dead or damaged element (id %d)", it->id);
        id = it->id;
    }

    void iterate(int me, Rng& rnd, uint64_t t0, It& it, int from, std::vector<HeldIt>& held, bool removing)
    {
        IterRec r;
        r.from = from;
        r.complete = true;
        r.t0 = t0;
        unsigned stop = rnd.p(15) ? rnd.upto(6) : 1000000;
        for(; it != list->rend(); ++it)
        {
            if(r.seen.size() >= stop)
            {
                r.complete = false;
                break;
            }
            int id;
            check_at(it, id);
            r.seen.push_back(id);
            if(r.seen.size() > MAXT * PER_THREAD)
                found("LIST", "an iteration visits more elements than were ever pushed");
            if(removing && rnd.p(40) && claim(id))
            {
                g_elem[id].rem0 = tick();
                list->remove(it);
                g_elem[id].rem1 = tick();
                hx::stat("removes");
                check_at(it, id); // still referenced by this iterator
            }
            if(rnd.p(6) && held.size() < 6)
            {
                // a second reference to this position
                auto copy = std::make_unique<It>(it);
                if(copy->is_valid())
                {
                    int cid;
                    check_at(*copy, cid);
                    held.push_back(HeldIt{cid, std::move(copy)});
                }
            }
            if(rnd.p(10))
                for(auto& h : held)
                {
                    int x;
                    check_at(*h.it, x);
                    if(x != h.id)
                        found("LIST", "a held iterator moved from element %d to %d", h.id, x);
                    hx::stat("held_checks");
                }
            // the element stays as it is while the iterator points at it
            int id2;
            check_at(it, id2);
            if(id2 != id)
                found("LIST", "element changed from %d to %d under an iterator", id, id2);
        }
        r.t1 = tick();
        hx::stat("iterations");
        hx::stat("visits", r.seen.size());
        iters[me].push_back(r);
    }

    void thread(int me, uint64_t seed)
    {
        Rng rnd(seed);
        std::vector<HeldIt> mine, held; // positions returned by push / copies
        int n = 0;
        unsigned total = w_push + w_remove + w_iter + w_iter_rem + w_hold + w_erase;
        for(int i = 0; i < ops; ++i)
        {
            unsigned k = rnd.upto(total);
            if(k < w_push)
            {
                for(int m = rnd.range(1, 3); m > 0 && n < PER_THREAD; --m)
                {
                    int id = me * PER_THREAD + n;
                    g_elem[id].thread = me;
                    g_elem[id].pos = n++;
                    Elem e(id);
                    g_elem[id].push0 = tick();
                    auto it = list->push(e);
                    g_elem[id].push1 = tick();
                    hx::stat("pushes");
                    // somebody else may already have removed it, then the position has moved on
                    if(it.is_valid())
                    {
                        int got;
                        check_at(it, got);
                        if(got != id && !relaxed(g_elem[id].claimed))
                            found("LIST", "push of %d returned the position of %d", id, got);
                        if(got == id && rnd.p(60))
                        {
                            auto keep = std::make_unique<It>(it);
                            if(keep->is_valid() && (*keep)->id == id)
                                mine.push_back(HeldIt{id, std::move(keep)});
                        }
                    }
                    else if(!relaxed(g_elem[id].claimed))
                        found("LIST", "push of %d returned an invalid position", id);
                }
            }
            else if((k -= w_push) < w_remove)
            {
                if(mine.empty())
                    continue;
                size_t j = rnd.upto(mine.size());
                int id = mine[j].id;
                if(claim(id))
                {
                    g_elem[id].rem0 = tick();
                    list->remove(*mine[j].it);
                    g_elem[id].rem1 = tick();
                    hx::stat("removes");
                    int x;
                    check_at(*mine[j].it, x);
                    if(x != id)
                        found("LIST", "element %d changed to %d while it was referenced", id, x);
                }
                mine.erase(mine.begin() + j);
            }
            else if((k -= w_remove) < w_iter)
            {
                if(!mine.empty() && rnd.p(25))
                {
                    size_t j = rnd.upto(mine.size());
                    uint64_t t0 = tick();
                    It it(*mine[j].it);
                    if(it.is_valid())
                        iterate(me, rnd, t0, it, it->id, held, false);
                }
                else
                {
                    uint64_t t0 = tick();
                    It it = list->rbegin();
                    iterate(me, rnd, t0, it, -1, held, false);
                }
            }
            else if((k -= w_iter) < w_iter_rem)
            {
                uint64_t t0 = tick();
                It it = list->rbegin();
                iterate(me, rnd, t0, it, -1, held, true);
            }
            else if((k -= w_iter_rem) < w_hold)
            {
                if(!held.empty())
                    held.erase(held.begin() + rnd.upto(held.size()));
                else if(!mine.empty() && rnd.p(50))
                    mine.erase(mine.begin() + rnd.upto(mine.size()));
            }
            else
            {
                if(n == 0)
                    continue;
                int id = me * PER_THREAD + rnd.upto(n);
                if(claim(id))
                {
                    Elem key(id);
                    g_elem[id].rem0 = tick();
                    list->erase(key);
                    g_elem[id].rem1 = tick();
                    hx::stat("erases");
                }
            }
        }
        pushed[me] = n;
    }

    // one iteration against the history
    void judge(IterRec const& r)
    {
        std::set<int> seen;
        std::vector<int> last(n_threads, 1 << 30);
        for(int id : r.seen)
        {
            if(id < 0 || id >= MAXT * PER_THREAD || g_elem[id].thread < 0)
                found("LIST", "an iteration visits something that was never pushed (%d)", id);
            if(!seen.insert(id).second)
                found("LIST", "an iteration visits element %d twice", id);
            auto& e = g_elem[id];
            if(e.push0 > r.t1)
                found("LIST", "an iteration visits element %d before it was pushed", id);
            if(e.rem1 && e.rem1 < r.t0)
                found("LIST", "an iteration visits element %d, which was removed before it began", id);
            if(e.pos > last[e.thread])
                found("LIST", "an iteration visits older elements of one thread first (%d)", id);
            last[e.thread] = e.pos;
        }
        if(!r.complete)
            return;
        uint64_t must = 0;
        for(int t = 0; t < n_threads; ++t)
            for(int i = 0; i < pushed[t]; ++i)
            {
                int id = t * PER_THREAD + i;
                auto& e = g_elem[id];
                uint64_t limit = r.from < 0 ? r.t0 : g_elem[r.from].push0;
                if(e.push1 < limit && e.push1 < r.t0 && (!e.rem0 || e.rem0 > r.t1))
                {
                    ++must;
                    if(!seen.count(id))
                    {
                        std::string h;
                        for(int x : r.seen)
                            h += std::to_string(x) + " ";
                        for(int u = 0; u < n_threads; ++u)
                            for(int j = 0; j < pushed[u]; ++j)
                            {
                                auto& f = g_elem[u * PER_THREAD + j];
                                if(f.push0 < r.t1 && (!f.rem1 || f.rem1 > r.t0 - std::min<uint64_t>(r.t0, 100)))
                                    h += fmt_(
                                        "\n  %d push [%llu,%llu] remove [%llu,%llu]",
                                        u * PER_THREAD + j,
                                        (unsigned long long) f.push0,
                                        (unsigned long long) f.push1,
                                        (unsigned long long) f.rem0,
                                        (unsigned long long) f.rem1);
                            }
                        hx::describe("visited: " + h);
                        found(
                            "LIST",
                            "an iteration [%llu,%llu] from %d (%zu visits) misses element %d, pushed [%llu,%llu], removal "
                            "begun %llu",
                            (unsigned long long) r.t0,
                            (unsigned long long) r.t1,
                            r.from,
                            r.seen.size(),
                            id,
                            (unsigned long long) e.push0,
                            (unsigned long long) e.push1,
                            (unsigned long long) e.rem0);
                    }
                }
            }
        hx::stat("must_visits", must);
    }

    void run(uint64_t seed, bool reclaim)
    {
        Rng rnd(seed);
        n_threads = rnd.range(2, 4);
        ops = rnd.range(4, rnd.p(20) ? 60 : 18);
        w_push = rnd.range(10, 50);
        w_remove = rnd.upto(30);
        w_iter = rnd.range(5, 30);
        w_iter_rem = rnd.upto(20);
        w_hold = rnd.upto(20);
        w_erase = rnd.upto(8);
        for(auto& e : g_elem)
            e = ElemRec();
        hx::describe(fmt_(
            "list chunk=%zu threads=%d ops=%d push=%u remove=%u iterate=%u iterate+remove=%u drop=%u erase=%u",
            CS,
            n_threads,
            ops,
            w_push,
            w_remove,
            w_iter,
            w_iter_rem,
            w_hold,
            w_erase));
        iters.assign(n_threads, {});
        pushed.assign(n_threads, 0);
        auto cfg = vf::random_cfg(seed * 31 + 17, hx::mode());
        vf::sched_begin(cfg);
        long chunks_left = 0;
        {
            List l{HxAlloc()};
            list = &l;
            {
                std::vector<std::thread> ts;
                for(int t = 0; t < n_threads; ++t)
                    ts.emplace_back([this, t, s = rnd()] { thread(t, s); });
                for(auto& t : ts)
                    t.join();
            }
            vf::progress();
            // at rest: exactly the remaining elements
            iters.emplace_back();
            std::vector<HeldIt> none;
            Rng quiet(0);
            IterRec r;
            r.from = -1;
            r.complete = true;
            r.t0 = tick();
            for(auto it = l.crbegin(); it != l.crend(); ++it)
                r.seen.push_back(it->id);
            r.t1 = tick();
            iters.back().push_back(r);
            for(int t = 0; t < n_threads; ++t)
                for(int i = 0; i < pushed[t]; ++i)
                {
                    int id = t * PER_THREAD + i;
                    long live = hx::live_objects(id);
                    if(g_elem[id].rem1 && live)
                        found("LIFETIME", "element %d is removed and unreferenced, but not destroyed", id);
                    if(!g_elem[id].rem0 && live != 1)
                        found("LIFETIME", "element %d is in the list, but %ld instances of it are alive", id, live);
                }
            // copy and move keep the elements and their order
            {
                List c(HxAlloc(), l);
                std::vector<int> s;
                for(auto it = c.rbegin(); it != c.rend(); ++it)
                    s.push_back(it->id);
                if(s != r.seen)
                    found("LIST", "the copy has other elements or another order");
                List m(std::move(c));
                s.clear();
                for(auto it = m.rbegin(); it != m.rend(); ++it)
                    s.push_back(it->id);
                if(s != r.seen)
                    found("LIST", "the moved-to list has other elements or another order");
            }
            if(reclaim)
            {
                for(auto it = l.rbegin(); it != l.rend(); ++it)
                    l.remove(it);
                int n = 0;
                for(auto it = l.rbegin(); it != l.rend(); ++it)
                    ++n;
                if(n)
                    found("LIST", "%d elements are left after all of them were removed", n);
                if(hx::live_objects(-1))
                    found("LIFETIME", "%ld elements are alive after all of them were removed", hx::live_objects(-1));
                chunks_left = hx::mem_live();
                hx::stat("reclaim_checks");
                if(chunks_left > 2)
                    found("LEAK", "%ld chunks are kept by an empty list", chunks_left);
            }
        }
        vf::sched_end();
        if(hx::live_objects(-1))
            found("LIFETIME", "%ld elements survive the list", hx::live_objects(-1));
        if(hx::mem_live())
            found("LEAK", "%ld blocks survive the list", hx::mem_live());
        bool conc = false;
        uint64_t n_must0 = 0;
        (void) n_must0;
        for(auto& v : iters)
            for(auto& r : v)
            {
                judge(r);
                for(int t = 0; t < n_threads && !conc; ++t)
                    for(int i = 0; i < pushed[t] && !conc; ++i)
                    {
                        auto& e = g_elem[t * PER_THREAD + i];
                        conc = (e.push0 > r.t0 && e.push0 < r.t1) || (e.rem0 > r.t0 && e.rem0 < r.t1);
                    }
            }
        if(conc)
            hx::stat("concurrent_cases");
        hx::case_done(conc);
        hx::mem_reset();
        hx::reset_objects();
    }
};

static void list_case(uint64_t seed)
{
    bool reclaim = hx::args.what == "reclaim";
    switch(seed % 4)
    {
    case 0:
        ListCase<2>().run(seed, reclaim);
        break;
    case 1:
        ListCase<3>().run(seed, reclaim);
        break;
    case 2:
        ListCase<1>().run(seed, reclaim);
        break;
    case 3:
        ListCase<8>().run(seed, reclaim);
        break;
    }
}

// ------------------------------------------------------------------ arena

static rg::HwlocContext& hwloc()
{
    static rg::HwlocContext c;
    return c;
}

struct ABlock
{
    uintptr_t p = 0;
    size_t n = 0;
    unsigned char pat = 0;

    void fill()
    {
        memset((void*) p, pat, n);
    }

    void check()
    {
        for(size_t i = 0; i < n; ++i)
            if(((unsigned char*) p)[i] != pat)
                found("MEMORY", "byte %zu of a live block of %zu bytes has changed", i, n);
    }
};

static void arena_case(uint64_t seed)
{
    Rng rnd(seed);
    static size_t const sizes[] = {1024, 1500, 2048, 4096, 16384};
    size_t chunk = sizes[rnd.upto(5)];
    int n_threads = rnd.range(1, 4);
    int ops = rnd.range(5, rnd.p(20) ? 120 : 30);
    unsigned max_size = rnd.p(50) ? 64 : (rnd.p(50) ? 400 : 2 * chunk);
    unsigned p_free = rnd.range(20, 60);
    unsigned p_fault = rnd.p(30) ? rnd.range(2, 20) : 0;
    uint64_t faults0 = mw::failed_chunks();
    uint64_t refused_small = 0;
    hx::describe(fmt_(
        "arena chunk=%zu threads=%d ops=%d sizes<=%u free=%u%% failing requests for memory=%u%%",
        chunk,
        n_threads,
        ops,
        max_size,
        p_free,
        p_fault));
    auto before = mw::stats();
    auto cfg = vf::random_cfg(seed * 31 + 17, hx::mode());
    hwloc();
    vf::sched_begin(cfg);
    {
        using Arena = rg::memory::ChunkedBumpAlloc<rg::memory::HwlocAlloc>;
        hwloc_obj_t obj = hwloc_get_obj_by_type(hwloc().topology, HWLOC_OBJ_PU, 0);
        Arena arena(rg::memory::HwlocAlloc(hwloc(), obj), chunk);
        std::mutex m;
        std::vector<ABlock> shared;
        auto body = [&](uint64_t s, int me)
        {
            Rng r(s);
            std::vector<ABlock> mine;
            int big = 0;
            for(int i = 0; i < ops; ++i)
            {
                if(r.p(p_free))
                {
                    ABlock b;
                    if(r.p(50) && !mine.empty())
                    {
                        size_t j = r.upto(mine.size());
                        b = mine[j];
                        mine.erase(mine.begin() + j);
                    }
                    else
                    {
                        std::lock_guard<std::mutex> l(m);
                        if(!shared.empty())
                        {
                            size_t j = r.upto(shared.size());
                            b = shared[j];
                            shared.erase(shared.begin() + j);
                        }
                    }
                    if(b.p)
                    {
                        b.check();
                        arena.deallocate(rg::memory::Block{b.p, b.n});
                        hx::stat("frees");
                    }
                    continue;
                }
                ABlock b;
                b.n = r.p(5) ? r.upto(3 * chunk) : r.upto(max_size) + 1;
                b.pat = r();
                if(r.p(p_fault))
                    mw::fail_next_chunk();
                auto blk = arena.allocate(b.n);
                vf::progress();
                if(!blk)
                {
                    hx::stat("refused");
                    // small requests can be served whenever there is memory
                    if(b.n <= 64)
                    {
                        auto k = __atomic_add_fetch(&refused_small, 1, __ATOMIC_RELAXED);
                        if(k > mw::failed_chunks() - faults0)
                            found(
                                "ARENA",
                                "a request of %zu bytes is refused by an arena with chunks of %zu",
                                b.n,
                                chunk);
                        hx::stat("refused_no_memory");
                    }
                    continue;
                }
                if(b.n > chunk)
                    found("ARENA", "a request of %zu bytes is served by chunks of %zu bytes", b.n, chunk);
                b.p = blk.ptr;
                if(blk.len < b.n)
                    found("ARENA", "a block of %zu bytes for a request of %zu", blk.len, b.n);
                if(!mw::in_chunk((void*) b.p, b.n))
                    found("ARENA", "a block lies outside of the memory of the arena");
                if(b.p % alignof(std::max_align_t))
                    found("ARENA", "a block is not aligned");
                b.fill();
                hx::stat("allocs");
                if(r.p(40))
                {
                    std::lock_guard<std::mutex> l(m);
                    shared.push_back(b);
                }
                else
                    mine.push_back(b);
            }
            for(auto& b : mine)
            {
                b.check();
                arena.deallocate(rg::memory::Block{b.p, b.n});
            }
        };
        std::vector<std::thread> ts;
        for(int t = 0; t < n_threads; ++t)
            ts.emplace_back(body, rnd(), t);
        for(auto& t : ts)
            t.join();
        for(auto& b : shared)
        {
            b.check();
            arena.deallocate(rg::memory::Block{b.p, b.n});
        }
        hx::stat("failed_chunks", mw::failed_chunks() - faults0);
        mw::fail_chunk_in = -1;
        // everything is free: later requests are served from few chunks
        for(int i = 0; i < 3; ++i)
        {
            auto blk = arena.allocate(40);
            if(!blk)
                found("ARENA", "no memory although everything is free");
            memset((void*) blk.ptr, 1, 40);
            arena.deallocate(blk);
        }
    }
    vf::sched_end();
    auto after = mw::stats();
    if(after.live_blocks)
        found("LEAK", "%llu blocks are alive after all were returned", (unsigned long long) after.live_blocks);
    if(after.live_chunks)
        found("LEAK", "%llu chunks survive the arena", (unsigned long long) after.live_chunks);
    hx::stat("chunks", after.chunks - before.chunks);
    hx::stat("multi_block_chunks", after.multi_alloc_chunks - before.multi_alloc_chunks);
    hx::case_done(after.chunks - before.chunks > 1);
}

// ------------------------------------------------------------------ condition variable

// one waiter, several notifiers: releases and returns alternate
static void cv_case(uint64_t seed)
{
    Rng rnd(seed);
    int n_notifiers = rnd.range(1, 3);
    int rounds = rnd.range(1, 8);
    static unsigned const tos[] = {0, 1, 3, 20, 200};
    unsigned timeout = tos[rnd.upto(5)];
    bool pingpong = rnd.p(40);
    hx::describe(fmt_(
        "cv %s notifiers=%d rounds=%d spins=%u",
        pingpong ? "ping-pong" : "counting",
        n_notifiers,
        rounds,
        timeout));
    auto cfg = vf::random_cfg(seed * 31 + 17, hx::mode());
    vf::sched_begin(cfg);
    if(pingpong)
    {
        // data is handed over; a lost wake-up ends in a deadlock, a wrong one in wrong data
        rg::CondVar a(timeout), b(tos[rnd.upto(5)]);
        long x = 0, y = 0;
        rounds *= 3;
        std::thread t(
            [&]
            {
                for(int i = 1; i <= rounds; ++i)
                {
                    a.wait();
                    if(x != i)
                        found("CV", "wait() returned in round %d, but the data is of round %ld", i, x);
                    y = -i;
                    if(!b.notify())
                        found("CV", "notify() claims that the wait was released before");
                    vf::progress();
                }
            });
        for(int i = 1; i <= rounds; ++i)
        {
            x = i;
            if(!a.notify())
                found("CV", "notify() claims that the wait was released before");
            b.wait();
            if(y != -i)
                found("CV", "wait() returned in round %d, but the answer is %ld", i, y);
            vf::progress();
        }
        t.join();
        hx::stat("waits", 2 * rounds);
        hx::stat("notifies", 2 * rounds);
        vf::sched_end();
        hx::case_done(true);
        return;
    }
    rg::CondVar cv(timeout);
    uint64_t begun = 0, releases = 0, returns = 0, finished_notifies = 0, done = 0, waiting = 0;
    uint64_t total = 0;
    std::thread waiter(
        [&]
        {
            while(true)
            {
                __atomic_store_n(&waiting, 1, __ATOMIC_SEQ_CST);
                cv.wait();
                __atomic_store_n(&waiting, 0, __ATOMIC_SEQ_CST);
                uint64_t w = __atomic_add_fetch(&returns, 1, __ATOMIC_SEQ_CST);
                if(w > __atomic_load_n(&begun, __ATOMIC_SEQ_CST))
                    found("CV", "wait() returned %llu times with fewer notifications", (unsigned long long) w);
                vf::progress();
                if(__atomic_load_n(&done, __ATOMIC_SEQ_CST))
                    return;
            }
        });
    auto notifier = [&](uint64_t s)
    {
        Rng r(s);
        for(int i = 0; i < rounds; ++i)
        {
            for(int k = r.upto(r.p(30) ? 60 : 6); k > 0; --k)
                vf::point();
            __atomic_add_fetch(&begun, 1, __ATOMIC_SEQ_CST);
            bool rel = cv.notify();
            if(rel)
                __atomic_add_fetch(&releases, 1, __ATOMIC_SEQ_CST);
            __atomic_add_fetch(&finished_notifies, 1, __ATOMIC_SEQ_CST);
            vf::progress();
        }
    };
    {
        std::vector<std::thread> ts;
        for(int t = 0; t < n_notifiers; ++t)
            ts.emplace_back(notifier, rnd());
        for(auto& t : ts)
            t.join();
    }
    if(vf::wait_quiescent())
    {
        // nothing can run: the waiter has consumed every release
        uint64_t r = __atomic_load_n(&releases, __ATOMIC_SEQ_CST), w = __atomic_load_n(&returns, __ATOMIC_SEQ_CST);
        if(r != w)
            found(
                "CV",
                "%llu notifications claim a release, wait() returned %llu times, and the waiter sleeps",
                (unsigned long long) r,
                (unsigned long long) w);
        if(!w)
            found("CV", "wait() did not return although there were notifications");
        hx::stat("quiescent");
    }
    __atomic_store_n(&done, 1, __ATOMIC_SEQ_CST);
    __atomic_add_fetch(&begun, 1, __ATOMIC_SEQ_CST);
    bool last = cv.notify();
    if(last)
        __atomic_add_fetch(&releases, 1, __ATOMIC_SEQ_CST);
    if(hx::mode() == vf::Mode::CTRL && !last)
        found("CV", "notify() of a sleeping waiter claims that it was released before");
    waiter.join();
    // the waiter may have left one release of the notifiers unused
    uint64_t diff = releases - returns;
    if(diff > 1)
        found("CV", "%llu releases, %llu returns", (unsigned long long) releases, (unsigned long long) returns);
    vf::sched_end();
    hx::stat("waits", returns);
    hx::stat("notifies", begun);
    hx::stat("releases", releases);
    (void) total;
    hx::case_done(true);
}

// ------------------------------------------------------------------ spin lock

static void spin_case(uint64_t seed)
{
    Rng rnd(seed);
    int n = rnd.range(2, 4), rounds = rnd.range(2, 30);
    hx::describe(fmt_("spin threads=%d rounds=%d", n, rounds));
    auto cfg = vf::random_cfg(seed * 31 + 17, hx::mode());
    vf::sched_begin(cfg);
    rg::SpinLock l;
    long counter = 0, inside = 0; // plain: protected by the lock
    long hist[64];
    auto body = [&](uint64_t s)
    {
        Rng r(s);
        for(int i = 0; i < rounds; ++i)
        {
            auto crit = [&]
            {
                if(inside++ != 0)
                    found("SPIN", "two threads are between lock() and unlock()");
                long c = counter;
                for(int k = r.upto(5); k > 0; --k)
                    vf::point();
                if(c != counter)
                    found("SPIN", "protected data changed inside of a critical section");
                if(c > 0 && hist[(c - 1) % 64] != c - 1)
                    found("SPIN", "an earlier critical section is not seen");
                hist[c % 64] = c;
                counter = c + 1;
                if(--inside != 0)
                    found("SPIN", "two threads are between lock() and unlock()");
            };
            if(r.p(50))
            {
                std::unique_lock<rg::SpinLock> g(l);
                crit();
            }
            else
            {
                l.lock();
                crit();
                l.unlock();
            }
            vf::progress();
        }
    };
    std::vector<std::thread> ts;
    for(int t = 0; t < n; ++t)
        ts.emplace_back(body, rnd());
    for(auto& t : ts)
        t.join();
    if(counter != (long) n * rounds)
        found("SPIN", "%ld of %d critical sections took effect", counter, n * rounds);
    vf::sched_end();
    hx::stat("sections", counter);
    hx::case_done(true);
}

// ------------------------------------------------------------------ bitfield

static void bits_case(uint64_t seed)
{
    Rng rnd(seed);
    unsigned size = rnd.p(30) ? rnd.range(1, 8) : rnd.range(1, 200);
    if(rnd.p(20))
    {
        static unsigned const edge[] = {63, 64, 65, 127, 128, 129, 192};
        size = edge[rnd.upto(7)];
    }
    int n = rnd.range(2, 4), ops = rnd.range(4, 40);
    hx::describe(fmt_("bits size=%u threads=%d ops=%d", size, n, ops));
    auto cfg = vf::random_cfg(seed * 31 + 17, hx::mode());
    vf::sched_begin(cfg);
    rg::AtomicBitfield f(size);
    if(f.size() != size)
        found("BITS", "size() is %zu, not %u", f.size(), size);
    // some bits never change, some belong to one thread, the rest are fought over
    std::vector<int> owner(size); // -1 stable, -2 contended, else thread
    std::vector<char> init(size);
    std::vector<uint64_t> set_claims(size, 0), clear_claims(size, 0);
    for(unsigned i = 0; i < size; ++i)
    {
        owner[i] = rnd.p(30) ? -1 : rnd.p(40) ? -2 : (int) rnd.upto(n);
        init[i] = rnd.p(50);
        if(f.set(i, init[i]))
            found("BITS", "bit %u was set in a fresh field", i);
    }
    std::vector<std::vector<char>> own(n, init);
    auto body = [&](int me, uint64_t s)
    {
        Rng r(s);
        for(int o = 0; o < ops; ++o)
        {
            unsigned i = r.upto(size);
            int k = r.upto(10);
            if(k < 3)
            {
                bool v = r.p(50);
                if(owner[i] == me)
                {
                    bool old = f.set(i, v);
                    if(old != (bool) own[me][i])
                        found("BITS", "set(%u) reports %d, the bit was %d", i, old, own[me][i]);
                    own[me][i] = v;
                    if(f.get(i) != v)
                        found("BITS", "get(%u) does not see the own update", i);
                    hx::stat("sets");
                }
                else if(owner[i] == -2)
                {
                    bool old = f.set(i, v);
                    if(old != v)
                        __atomic_add_fetch(v ? &set_claims[i] : &clear_claims[i], 1, __ATOMIC_RELAXED);
                    hx::stat("contended_sets");
                }
            }
            else if(k < 5)
            {
                bool v = f.get(i);
                if(owner[i] == me && v != (bool) own[me][i])
                    found("BITS", "get(%u) is %d, the bit is %d", i, v, own[me][i]);
                if(owner[i] == -1 && v != (bool) init[i])
                    found("BITS", "get(%u) is %d, but the bit never changed from %d", i, v, init[i]);
            }
            else
            {
                bool v = r.p(50), excl = r.p(50);
                bool claim = r.p(40);
                int accept_after = r.p(50) ? (int) r.upto(6) : 1 << 30;
                std::vector<unsigned> offered;
                bool accepted = false;
                unsigned start = i;
                auto res = f.probe_by_value<unsigned>(
                    [&](unsigned idx) -> std::optional<unsigned>
                    {
                        if(accepted)
                            found("BITS", "the search goes on after an index was accepted");
                        if(idx >= size)
                            found("BITS", "the search offers index %u of %u", idx, size);
                        if(owner[idx] == -1 && (bool) init[idx] != v)
                            found("BITS", "the search offers index %u, which never had that value", idx);
                        if(owner[idx] == me && (bool) own[me][idx] != v)
                            found("BITS", "the search offers the own index %u, which has the other value", idx);
                        offered.push_back(idx);
                        if(offered.size() > 100000)
                            found("BITS", "the search does not end");
                        if(claim && owner[idx] == -2)
                        {
                            if(f.set(idx, !v) == v)
                            {
                                __atomic_add_fetch(!v ? &set_claims[idx] : &clear_claims[idx], 1, __ATOMIC_RELAXED);
                                hx::stat("claims");
                                accepted = true;
                                return idx;
                            }
                            return std::nullopt;
                        }
                        if((int) offered.size() > accept_after)
                        {
                            accepted = true;
                            return idx;
                        }
                        return std::nullopt;
                    },
                    v,
                    start,
                    excl);
                hx::stat("searches");
                hx::stat("offers", offered.size());
                if(accepted != (bool) res)
                    found("BITS", "the search returns %s", res ? "an index nobody accepted" : "nothing, though one was accepted");
                if(res && *res != offered.back())
                    found("BITS", "the search returns %u, accepted was %u", *res, offered.back());
                if(!accepted)
                    for(unsigned j = 0; j < size; ++j)
                        if(((owner[j] == -1 && (bool) init[j] == v) || (owner[j] == me && (bool) own[me][j] == v))
                           && !(excl && j == start) && std::find(offered.begin(), offered.end(), j) == offered.end())
                            found("BITS", "the search does not offer index %u, which has the value all the time", j);
                std::sort(offered.begin(), offered.end());
                for(size_t j = 1; j < offered.size(); ++j)
                    if(offered[j] == offered[j - 1] && owner[offered[j]] == -1)
                        found("BITS", "the search offers index %u twice", offered[j]);
            }
            vf::progress();
        }
    };
    std::vector<std::thread> ts;
    for(int t = 0; t < n; ++t)
        ts.emplace_back(body, t, rnd());
    for(auto& t : ts)
        t.join();
    for(unsigned i = 0; i < size; ++i)
    {
        bool v = f.get(i);
        if(owner[i] == -1 && v != (bool) init[i])
            found("BITS", "bit %u changed though nobody touched it", i);
        if(owner[i] >= 0 && v != (bool) own[owner[i]][i])
            found("BITS", "bit %u lost the last update of its owner", i);
        if(owner[i] == -2)
        {
            // every change of the bit was claimed by exactly one caller
            long d = (long) set_claims[i] - (long) clear_claims[i];
            if(d != (long) v - (long) init[i])
                found(
                    "BITS",
                    "bit %u went from %d to %d, but %llu callers claim to have set and %llu to have cleared it",
                    i,
                    init[i],
                    v,
                    (unsigned long long) set_claims[i],
                    (unsigned long long) clear_claims[i]);
            hx::stat("claim_balances");
        }
    }
    // the complete search at rest, for every start
    for(int k = 0; k < 6; ++k)
    {
        bool v = k & 1;
        unsigned start = rnd.upto(size);
        std::set<unsigned> got;
        auto r = f.probe_by_value<unsigned>(
            [&](unsigned idx) -> std::optional<unsigned>
            {
                if(idx >= size || !got.insert(idx).second)
                    found("BITS", "the search at rest offers index %u again or out of range", idx);
                return std::nullopt;
            },
            v,
            start,
            false);
        if(r)
            found("BITS", "the search finds what was rejected");
        for(unsigned j = 0; j < size; ++j)
            if((f.get(j) == v) != (bool) got.count(j))
                found("BITS", "the search at rest from %u for %d gets index %u wrong", start, v, j);
        hx::stat("rest_searches");
    }
    vf::sched_end();
    hx::case_done(true);
}

int main(int argc, char** argv)
{
    hx::init(argc, argv);
    spdlog::set_level(spdlog::level::off);
    mw::on_fail = [](char const* t) { found("MEMORY", "%s", t); };
    std::string w = hx::args.what;
    if(w == "list" || w == "reclaim")
        hx::loop(list_case);
    else if(w == "arena")
        hx::loop(arena_case);
    else if(w == "cv")
        hx::loop(cv_case);
    else if(w == "spin")
        hx::loop(spin_case);
    else if(w == "bits")
        hx::loop(bits_case);
    else
    {
        fprintf(stderr, "no such workload\n");
        return 3;
    }
    hx::finish();
}
