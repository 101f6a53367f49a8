#include "pm.hpp"

#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#include <algorithm>
#include <set>

namespace pm
{
    Stats stats;

    static std::string fmt(char const* f, ...)
    {
        char b[1024];
        va_list a;
        va_start(a, f);
        vsnprintf(b, sizeof b, f, a);
        va_end(a);
        return b;
    }

    // ------------------------------------------------------------------ accesses

    bool Acc::same(Acc const& o) const
    {
        if(res != o.res || mode != o.mode || dims != o.dims)
            return false;
        for(int d = 0; d < dims; ++d)
            if(lo[d] != o.lo[d] || hi[d] != o.hi[d])
                return false;
        return true;
    }

    bool conflict(Acc const& a, Acc const& b)
    {
        if(a.res != b.res)
            return false;
        if(a.mode == b.mode && a.mode != WRITE)
            return false;
        for(int d = 0; d < a.dims; ++d)
            if(a.hi[d] <= b.lo[d] || b.hi[d] <= a.lo[d])
                return false;
        return true;
    }

    bool covers(Acc const& a, Acc const& b)
    {
        if(a.res != b.res)
            return false;
        if(a.mode != WRITE && a.mode != b.mode)
            return false;
        for(int d = 0; d < a.dims; ++d)
            if(b.lo[d] < a.lo[d] || b.hi[d] > a.hi[d])
                return false;
        return true;
    }

    bool conflict(std::vector<Acc> const& a, std::vector<Acc> const& b)
    {
        for(auto& x : a)
            for(auto& y : b)
                if(conflict(x, y))
                    return true;
        return false;
    }

    static bool covered(std::vector<Acc> const& a, std::vector<Acc> const& b)
    {
        for(auto& y : b)
        {
            bool f = false;
            for(auto& x : a)
                f = f || covers(x, y);
            if(!f)
                return false;
        }
        return true;
    }

    static void apply(std::vector<Acc>& cur, std::vector<Acc> const& rm, std::vector<Acc> const& add)
    {
        for(auto& r : rm)
            cur.erase(
                std::remove_if(cur.begin(), cur.end(), [&](Acc const& a) { return a.same(r); }),
                cur.end());
        for(auto& a : add)
            cur.push_back(a);
    }

    static std::string str(Acc const& a)
    {
        static char const* const m[] = {"w", "r", "add", "mul"};
        std::string s = fmt("%s(%d", m[a.mode], a.res);
        for(int d = 0; d < a.dims; ++d)
            s += a.hi[d] == INF && a.lo[d] == 0 ? std::string(" *") : fmt(" %u-%u", a.lo[d], a.hi[d]);
        return s + ")";
    }

    static std::string str(std::vector<Acc> const& v)
    {
        std::string s = "{";
        for(auto& a : v)
            s += (s.size() > 1 ? "," : "") + str(a);
        return s + "}";
    }

    std::string Program::describe() const
    {
        static char const* const an[]
            = {"spawn",
               "get",
               "drop",
               "ready",
               "touch",
               "event",
               "notify",
               "yield",
               "demote",
               "badupd",
               "barrier",
               "introspect",
               "noevent"};
        std::string s = fmt(
            "workers=%d res=%zu events=%zu%s%s\n",
            workers,
            res.size(),
            events.size(),
            finalize_direct ? " finalize-directly" : "",
            controller ? "" : " no-controller");
        for(auto& t : tasks)
        {
            s += fmt("  t%d(parent t%d)%s ", t.id, t.parent, t.ss ? " ss" : "") + str(t.acc) + ":";
            for(auto& a : t.body)
            {
                s += fmt(" %s", an[(int) a.act]);
                switch(a.act)
                {
                case Act::SPAWN:
                    s += fmt(
                        "(t%d%s)",
                        a.x,
                        a.fut == Fut::DROP   ? ""
                        : a.fut == Fut::HOLD ? ",hold"
                                             : ",give");
                    break;
                case Act::GET:
                case Act::DROP:
                case Act::READY:
                    s += fmt("(t%d)", a.x);
                    break;
                case Act::EVENT:
                case Act::NOTIFY:
                case Act::YIELD:
                    s += fmt("(e%d)", a.x);
                    break;
                case Act::DEMOTE:
                case Act::BADUPD:
                    s += "(-" + str(a.rm) + " +" + str(a.add) + ")";
                    break;
                default:;
                }
            }
            s += "\n";
        }
        return s;
    }

    // ------------------------------------------------------------------ reference model

    struct Model
    {
        Program const& P;
        std::vector<int> pc;
        std::vector<char> submitted, started, body, released, evc, evn, freed_flag;
        std::vector<std::vector<Acc>> cur;
        std::vector<std::vector<int>> children; // in submission order
        std::vector<std::vector<int>> evs; // created events per task

        Model(Program const& p, std::vector<char> const& notified)
            : P(p)
            , pc(p.tasks.size())
            , submitted(p.tasks.size())
            , started(p.tasks.size())
            , body(p.tasks.size())
            , released(p.tasks.size())
            , evc(p.events.size())
            , evn(notified)
            , freed_flag(p.tasks.size())
            , cur(p.tasks.size())
            , children(p.tasks.size())
            , evs(p.tasks.size())
        {
            for(size_t i = 0; i < p.tasks.size(); ++i)
                cur[i] = p.tasks[i].acc;
            submitted[0] = started[0] = 1;
            run();
        }

        bool done(int t) const
        {
            if(!body[t])
                return false;
            for(int e : evs[t])
                if(!evn[e])
                    return false;
            for(int c : children[t])
                if(!done(c))
                    return false;
            return true;
        }

        bool freed(int t) const
        {
            return done(t) && released[t];
        }

        bool startable(int t, int* why = nullptr) const
        {
            if(!submitted[t])
                return false;
            for(int s : children[P.tasks[t].parent])
            {
                if(s == t)
                    break;
                if(conflict(cur[s], P.tasks[t].acc) && !done(s))
                {
                    if(why)
                        *why = s;
                    return false;
                }
            }
            return true;
        }

        bool advance(int t)
        {
            auto& T = P.tasks[t];
            bool any = false;
            while(pc[t] < (int) T.body.size())
            {
                auto& a = T.body[pc[t]];
                switch(a.act)
                {
                case Act::SPAWN:
                    submitted[a.x] = 1;
                    children[t].push_back(a.x);
                    if(a.fut == Fut::DROP)
                        released[a.x] = 1;
                    break;
                case Act::GET:
                    if(!body[a.x])
                        return any;
                    released[a.x] = 1;
                    break;
                case Act::DROP:
                    released[a.x] = 1;
                    break;
                case Act::EVENT:
                    evc[a.x] = 1;
                    evs[t].push_back(a.x);
                    break;
                case Act::NOTIFY:
                    if(!evc[a.x])
                        return any; // cannot happen in a generated program
                    evn[a.x] = 1;
                    break;
                case Act::YIELD:
                    if(!evc[a.x] || !evn[a.x])
                        return any;
                    break;
                case Act::DEMOTE:
                    apply(cur[t], a.rm, a.add);
                    break;
                case Act::BARRIER:
                    for(int c : children[0])
                        if(!freed(c))
                            return any;
                    break;
                default:
                    break;
                }
                ++pc[t];
                any = true;
            }
            if(!body[t])
            {
                body[t] = 1;
                any = true;
                // futures still held by the body
                for(auto& a : T.body)
                    if(a.act == Act::SPAWN && a.fut == Fut::HOLD)
                        released[a.x] = 1;
            }
            return any;
        }

        void run()
        {
            bool any = true;
            while(any)
            {
                any = false;
                for(size_t t = 0; t < P.tasks.size(); ++t)
                {
                    if(!started[t] && startable(t))
                    {
                        started[t] = 1;
                        any = true;
                    }
                    if(started[t] && !body[t])
                        any = advance(t) || any;
                    if(t && !freed_flag[t] && submitted[t] && freed(t))
                    {
                        freed_flag[t] = 1;
                        any = true;
                        for(int g : P.tasks[t].given)
                            released[g] = 1;
                    }
                }
            }
        }

        bool complete() const
        {
            for(size_t t = 0; t < P.tasks.size(); ++t)
                if(!submitted[t] || !body[t] || !done(t))
                    return false;
            return true;
        }
    };

    // ------------------------------------------------------------------ generator

    static Profile const profiles[] = {
        []
        {
            Profile p;
            p.name = "mixed";
            p.p_demote = 5;
            p.p_badupd = 2;
            return p;
        }(),
        []
        {
            // C01: few resources, many conflicting tasks
            Profile p;
            p.name = "conflict";
            p.max_res = 2;
            p.p_event = 4;
            p.p_yield = 3;
            p.p_get = 6;
            p.p_child = 15;
            p.max_depth = 2;
            p.max_tasks = 30;
            p.p_noacc = 3;
            p.many_readers = 30;
            p.p_demote = 2;
            return p;
        }(),
        []
        {
            // C02: everything, small and large
            Profile p;
            p.name = "progress";
            p.max_tasks = 40;
            p.max_workers = 6;
            p.p_demote = 4;
            p.p_event = 12;
            return p;
        }(),
        []
        {
            // C03
            Profile p;
            p.name = "barrier";
            p.p_barrier = 35;
            p.p_direct = 50;
            p.p_child = 25;
            p.p_event = 8;
            p.max_tasks = 16;
            p.p_eager = 70;
            p.p_nosched = 30;
            return p;
        }(),
        []
        {
            // C04
            Profile p;
            p.name = "nested";
            p.max_depth = 6;
            p.p_child = 60;
            p.p_noacc = 3;
            p.max_res = 2;
            p.p_write = 60;
            p.p_barrier = 15;
            p.p_local = 30;
            p.max_tasks = 28;
            p.p_event = 5;
            return p;
        }(),
        []
        {
            // C05
            Profile p;
            p.name = "future";
            p.p_get = 45;
            p.p_ss = 75;
            p.p_give = 20;
            p.p_ready = 20;
            p.p_event = 5;
            p.p_child = 40;
            return p;
        }(),
        []
        {
            // C06
            Profile p;
            p.name = "event";
            p.p_event = 45;
            p.p_yield = 10;
            p.max_res = 2;
            p.p_write = 60;
            p.p_child = 20;
            p.max_tasks = 14;
            p.p_barrier = 12;
            p.p_eager = 40;
            return p;
        }(),
        []
        {
            // C07
            Profile p;
            p.name = "suspend";
            p.p_ss = 90;
            p.p_event = 30;
            p.p_yield = 45;
            p.p_get = 20;
            p.p_child = 30;
            p.p_eager = 60;
            p.max_tasks = 16;
            return p;
        }(),
        []
        {
            // C08
            Profile p;
            p.name = "demote";
            p.p_demote = 45;
            p.p_badupd = 10;
            p.max_res = 3;
            p.p_write = 70;
            p.p_noacc = 0;
            p.p_event = 20;
            p.p_child = 12;
            p.max_depth = 2;
            p.p_multi = 60;
            p.max_tasks = 16;
            p.p_eager = 25;
            p.p_ss = 60;
            p.p_yield = 25;
            return p;
        }(),
        []
        {
            // C09
            Profile p;
            p.name = "parallel";
            p.p_field = 60;
            p.p_write = 25;
            p.max_res = 3;
            p.p_event = 25;
            p.p_yield = 25;
            p.p_ss = 80;
            p.p_eager = 5;
            p.max_tasks = 24;
            p.p_child = 15;
            p.many_readers = 25;
            return p;
        }(),
    };

    Profile const* find_profile(std::string const& n)
    {
        for(auto& p : profiles)
            if(n == p.name)
                return &p;
        return nullptr;
    }

    struct Gen
    {
        Profile const& F;
        uint64_t s;
        Program P;
        int n_root_res = 1;

        Gen(uint64_t seed, Profile const& f) : F(f), s(seed * 0x9E3779B97F4A7C15ull + 12345)
        {
        }

        uint64_t rnd()
        {
            uint64_t z = (s += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }

        int upto(int n) // 0..n-1
        {
            return n > 0 ? (int) (rnd() % n) : 0;
        }

        int range(int a, int b)
        {
            return a + upto(b - a + 1);
        }

        bool p(int percent)
        {
            return upto(100) < percent;
        }

        int new_res(int owner)
        {
            ResSpec r;
            r.owner = owner;
            r.dims = p(F.p_field) ? range(1, 2) : 0;
            P.res.push_back(r);
            return P.res.size() - 1;
        }

        Mode any_mode()
        {
            if(p(F.p_write))
                return WRITE;
            int k = upto(10);
            return k < 6 ? READ : k < 8 ? AADD : AMUL;
        }

        Acc full(int r)
        {
            Acc a;
            a.res = r;
            a.dims = P.res[r].dims;
            a.mode = any_mode();
            return a;
        }

        void shrink(Acc& a)
        {
            for(int d = 0; d < a.dims; ++d)
            {
                if(p(30))
                    continue;
                uint32_t ext = a.dims == 1 ? EXTENT1 : EXTENT2;
                uint32_t lo = a.lo[d], hi = a.hi[d] == INF ? ext : a.hi[d];
                if(hi - lo <= 1)
                    continue;
                uint32_t x = lo + upto(hi - lo), y = lo + upto(hi - lo);
                if(x > y)
                    std::swap(x, y);
                a.lo[d] = x;
                a.hi[d] = y + 1;
            }
        }

        Acc weaken(Acc a)
        {
            if(a.mode == WRITE && p(60))
                a.mode = any_mode();
            shrink(a);
            return a;
        }

        // accesses of a new task, within `cur` (the accesses of its parent) and the resources `local`
        std::vector<Acc> accesses(bool root, std::vector<Acc> const& cur, std::vector<int> const& local)
        {
            std::vector<Acc> v;
            if(p(F.p_noacc))
                return v;
            int n = 1;
            while(n < 10 && p(F.p_multi))
                ++n;
            for(int i = 0; i < n; ++i)
            {
                Acc a;
                bool use_local = !local.empty() && (root || cur.empty() || p(40));
                if(use_local)
                {
                    a = full(local[upto(local.size())]);
                    shrink(a);
                }
                else if(!cur.empty())
                    a = weaken(cur[upto(cur.size())]);
                else
                    break;
                bool same_res = false;
                for(auto& b : v)
                    same_res = same_res || b.res == a.res;
                if(same_res && !p(F.p_same_res))
                    continue;
                v.push_back(a);
            }
            return v;
        }

        struct Scope
        {
            std::vector<int> held; // futures held
            std::vector<int> known; // events that exist whenever this point is reached
            std::vector<int> to_notify; // events this body has to notify
            std::vector<Acc> cur;
            std::vector<int> give; // futures to be given to the next child
            std::vector<int> open; // children that may still be running
            bool spawned = false;
        };

        void release_all(int t, Scope& S)
        {
            while(!S.held.empty())
            {
                int h = S.held.back();
                S.held.pop_back();
                Action a;
                a.x = h;
                a.act = p(50) && (t == 0 || P.tasks[t].ss) ? Act::GET : Act::DROP;
                P.tasks[t].body.push_back(a);
                if(a.act == Act::GET)
                    learn(h, S);
            }
        }

        // true if this access is ordered with everything the children of this scope may be doing
        bool alone(Acc const& a, Scope const& S)
        {
            for(int c : S.open)
                for(auto& b : P.tasks[c].acc)
                    if(conflict(a, b))
                        return false;
            return true;
        }

        void learn(int child, Scope& S)
        {
            bool leaf = true;
            for(auto& b : P.tasks[child].body)
                leaf = leaf && b.act != Act::SPAWN;
            if(leaf)
                for(size_t i = 0; i < S.open.size(); ++i)
                    if(S.open[i] == child)
                    {
                        S.open.erase(S.open.begin() + i);
                        break;
                    }
            // after get(): the events created directly in the child's body exist
            for(auto& b : P.tasks[child].body)
                if(b.act == Act::EVENT)
                    S.known.push_back(b.x);
        }

        void body(int t, int depth, Scope& S, int budget)
        {
            bool root = t == 0;
            int n = root ? 1000 : range(0, 6);
            int made = 0;
            if(!root && p(F.p_local) && depth < F.max_depth)
            {
                int k = range(1, 2);
                for(int i = 0; i < k; ++i)
                {
                    int r = new_res(t);
                    P.tasks[t].local_res.push_back(r);
                }
            }
            int burst = 0; // remaining tasks of a fan-out of readers
            Acc burst_acc;
            for(int i = 0; i < n; ++i)
            {
                if(root && made >= budget)
                    break;
                Action a;
                int k = upto(100);
                bool spawn = root ? p(70) || burst : (depth < F.max_depth && made < budget && p(F.p_child));
                if(spawn && (int) P.tasks.size() < 60)
                {
                    TaskSpec T;
                    T.id = P.tasks.size();
                    T.parent = t;
                    T.depth = depth;
                    std::vector<int> local = root ? std::vector<int>() : P.tasks[t].local_res;
                    if(root)
                        for(size_t r = 0; r < P.res.size(); ++r)
                            if(P.res[r].owner == 0)
                                local.push_back(r);
                    if(burst > 0)
                    {
                        --burst;
                        T.acc.push_back(burst_acc);
                        if(burst == 0 && p(60))
                            T.acc[0].mode = WRITE;
                    }
                    else
                    {
                        T.acc = accesses(root, S.cur, local);
                        if(root && p(F.many_readers) && !T.acc.empty())
                        {
                            burst = range(2, 8);
                            burst_acc = T.acc[0];
                            burst_acc.mode = READ;
                        }
                    }
                    T.style = upto(6);
                    T.result = upto(3);
                    T.pad = p(F.big_pad) ? range(1, 2) : 0;
                    T.ss = p(F.p_ss);
                    T.given = S.give;
                    S.give.clear();
                    P.tasks.push_back(T);
                    int id = T.id;

                    Scope C;
                    C.cur = T.acc;
                    C.known = S.known;
                    C.held = T.given; // the child can take or drop what it was given
                    // events of the parent that the child has to notify
                    for(size_t j = 0; j < S.to_notify.size();)
                        if(p(40))
                        {
                            C.to_notify.push_back(S.to_notify[j]);
                            S.to_notify.erase(S.to_notify.begin() + j);
                        }
                        else
                            ++j;
                    body(id, depth + 1, C, root ? range(0, 6) : range(0, 3));
                    ++made;
                    S.spawned = true;
                    S.open.push_back(id);
                    a.act = Act::SPAWN;
                    a.x = id;
                    int q = upto(100);
                    a.fut = q < 50 ? Fut::DROP : (q < 50 + F.p_give ? Fut::GIVE : Fut::HOLD);
                    P.tasks[t].body.push_back(a);
                    if(a.fut == Fut::HOLD)
                        S.held.push_back(id);
                    else if(a.fut == Fut::GIVE)
                        S.give.push_back(id);
                }
                else if(!root && k < F.p_event)
                {
                    EventSpec E;
                    E.creator = t;
                    int e = P.events.size();
                    a.act = Act::EVENT;
                    a.x = e;
                    bool internal = p(35);
                    E.eager = p(F.p_eager);
                    if(internal)
                    {
                        E.by = t; // fixed up below
                        S.to_notify.push_back(e);
                    }
                    P.events.push_back(E);
                    S.known.push_back(e);
                    P.tasks[t].body.push_back(a);
                }
                else if((root || P.tasks[t].ss) && p(F.p_yield) && !S.known.empty())
                {
                    a.act = Act::YIELD;
                    a.x = S.known[p(70) ? S.known.size() - 1 : upto(S.known.size())];
                    P.events[a.x].waiters++;
                    P.tasks[t].body.push_back(a);
                }
                else if(p(F.p_get) && !S.held.empty() && (root || P.tasks[t].ss))
                {
                    int j = upto(S.held.size());
                    a.act = Act::GET;
                    a.x = S.held[j];
                    S.held.erase(S.held.begin() + j);
                    learn(a.x, S);
                    P.tasks[t].body.push_back(a);
                }
                else if(p(F.p_ready) && !S.held.empty())
                {
                    a.act = Act::READY;
                    a.x = S.held[upto(S.held.size())];
                    P.tasks[t].body.push_back(a);
                }
                else if(p(6) && !S.held.empty())
                {
                    int j = upto(S.held.size());
                    a.act = Act::DROP;
                    a.x = S.held[j];
                    S.held.erase(S.held.begin() + j);
                    P.tasks[t].body.push_back(a);
                }
                else if(!root && !S.to_notify.empty() && p(30))
                {
                    int j = upto(S.to_notify.size());
                    a.act = Act::NOTIFY;
                    a.x = S.to_notify[j];
                    S.to_notify.erase(S.to_notify.begin() + j);
                    P.tasks[t].body.push_back(a);
                }
                else if(!root && !S.spawned && !S.cur.empty() && p(F.p_demote))
                {
                    a.act = Act::DEMOTE;
                    int m = p(70) ? 1 : range(1, S.cur.size());
                    for(int j = 0; j < m; ++j)
                    {
                        Acc x = S.cur[upto(S.cur.size())];
                        bool dup = false;
                        for(auto& y : a.rm)
                            dup = dup || y.same(x);
                        if(dup)
                            continue;
                        a.rm.push_back(x);
                        if(p(75))
                        {
                            Acc y = weaken(x);
                            a.add.push_back(y);
                        }
                    }
                    apply(S.cur, a.rm, a.add);
                    P.tasks[t].body.push_back(a);
                }
                else if(!root && p(F.p_badupd) && !S.cur.empty())
                {
                    Acc x = S.cur[upto(S.cur.size())];
                    Acc y = x;
                    y.mode = WRITE;
                    y.lo[0] = y.lo[1] = 0;
                    y.hi[0] = y.hi[1] = INF;
                    if(p(30))
                        y.mode = any_mode();
                    if(!covered(S.cur, {y}))
                    {
                        a.act = Act::BADUPD;
                        a.add.push_back(y);
                        if(p(30))
                            a.rm.push_back(x);
                        P.tasks[t].body.push_back(a);
                    }
                }
                else if(root && p(F.p_barrier) && S.give.empty())
                {
                    release_all(t, S);
                    a.act = Act::BARRIER;
                    P.tasks[t].body.push_back(a);
                    S.open.clear();
                }
                else if(p(F.p_introspect))
                {
                    a.act = root && p(40) ? Act::NOEVENT : Act::INTROSPECT;
                    P.tasks[t].body.push_back(a);
                }
                else if(!root && !S.cur.empty() && p(50))
                {
                    a.act = Act::TOUCH;
                    a.x = upto(S.cur.size());
                    a.add.push_back(S.cur[a.x]);
                    if(alone(a.add[0], S))
                        P.tasks[t].body.push_back(a);
                }
                else if(root && p(50))
                {
                    a.act = Act::TOUCH;
                    a.add.push_back(full(upto(n_root_res)));
                    if(alone(a.add[0], S))
                        P.tasks[t].body.push_back(a);
                }
            }
            // leftovers
            while(!S.to_notify.empty())
            {
                Action a;
                a.act = Act::NOTIFY;
                a.x = S.to_notify.back();
                S.to_notify.pop_back();
                P.tasks[t].body.push_back(a);
            }
            if(!S.give.empty())
            {
                // nobody was created to give them to: the creator keeps them
                for(auto& b : P.tasks[t].body)
                    if(b.act == Act::SPAWN && std::find(S.give.begin(), S.give.end(), b.x) != S.give.end())
                        b.fut = Fut::HOLD;
                for(int g : S.give)
                    S.held.push_back(g);
                S.give.clear();
            }
            if(root)
                release_all(t, S);
        }
    };

    Program generate(uint64_t seed, Profile const& F)
    {
        for(uint64_t attempt = 0;; ++attempt)
        {
            Gen g(seed + attempt * 0x1000000007ull, F);
            g.P.seed = seed;
            TaskSpec root;
            root.depth = -1;
            g.P.tasks.push_back(root);
            int nres = g.range(1, F.max_res);
            for(int i = 0; i < nres; ++i)
                g.new_res(0);
            g.n_root_res = nres;
            g.P.workers = g.range(1, F.max_workers);
            Gen::Scope S;
            g.body(0, 0, S, g.p(50) ? g.range(F.min_tasks, (F.min_tasks + F.max_tasks) / 2) : g.range(F.min_tasks, F.max_tasks));
            bool ext = false;
            for(auto& e : g.P.events)
                if(e.by == 0)
                    ext = true;
            // whoever notifies events from outside has to be done before finalize() is called
            g.P.finalize_direct = g.p(F.p_direct) && !ext;
            g.P.controller = !g.P.finalize_direct;
            std::vector<char> all(g.P.events.size(), 0);
            for(size_t i = 0; i < all.size(); ++i)
                all[i] = g.P.events[i].by == 0;
            Model m(g.P, all);
            if(!m.complete())
                continue; // would block itself
            return g.P;
        }
    }

    // ------------------------------------------------------------------ monitor

    static void default_violation(char const* c, char const* t)
    {
        fprintf(stderr, "VIOLATION %s: %s\n", c, t);
        fflush(stderr);
        _exit(1);
    }

    void (*on_violation)(char const*, char const*) = default_violation;

    namespace
    {
        struct TS
        {
            bool submitted = false, begun = false, ended = false, running = false;
            int pc = 0;
            int order = 0;
            std::vector<Acc> cur;
            std::vector<int> children;
            std::vector<int> evs;
            int demoted = 0;
            int trackers = 0;
            bool had_tracker = false;
            bool released = false;
            bool waiting = false;
            int wait_worker = -1;
            uint64_t id = 0;
            bool has_id = false;
            bool ready_seen = false;
        };

        struct EV
        {
            bool created = false, notified = false;
        };

        Program const* P = nullptr;
        std::vector<TS> T;
        std::vector<EV> E;
        int order = 0;
        bool ctrl = false;
        volatile char lk = 0;
        std::set<uint64_t>* seen = nullptr;
        std::set<uint64_t>* ids = nullptr;

        struct Lock
        {
            Lock()
            {
                while(__atomic_test_and_set(&lk, __ATOMIC_ACQUIRE))
                    __builtin_ia32_pause();
            }
            ~Lock()
            {
                __atomic_clear(&lk, __ATOMIC_RELEASE);
            }
        };

        bool done(int t, char const** why = nullptr)
        {
            auto& s = T[t];
            if(!s.ended)
            {
                if(why)
                    *why = !s.begun ? "has not begun" : s.waiting ? "is suspended in its body" : "is in its body";
                return false;
            }
            for(int e : s.evs)
                if(!E[e].notified)
                {
                    if(why)
                        *why = "has an event that is not notified";
                    return false;
                }
            for(int c : s.children)
                if(!done(c))
                {
                    if(why)
                        *why = "has an unfinished descendant";
                    return false;
                }
            return true;
        }

        void need(bool c, char const* cls, std::string const& s)
        {
            if(!c)
            {
                __atomic_clear(&lk, __ATOMIC_RELEASE);
                violation(cls, s);
            }
        }
    } // namespace

    void violation(char const* cls, std::string const& text)
    {
        on_violation(cls, text.c_str());
    }

    void run_begin(Program const& p, bool controlled)
    {
        P = &p;
        ctrl = controlled;
        T.assign(p.tasks.size(), TS());
        E.assign(p.events.size(), EV());
        order = 0;
        for(size_t i = 0; i < p.tasks.size(); ++i)
            T[i].cur = p.tasks[i].acc;
        T[0].submitted = T[0].begun = T[0].running = true;
        stats.programs++;
        if(!seen)
        {
            seen = new std::set<uint64_t>();
            ids = new std::set<uint64_t>();
        }
        ids->clear();
        std::string d = p.describe();
        uint64_t h = 1469598103934665603ull;
        for(char c : d)
            h = (h ^ (unsigned char) c) * 1099511628211ull;
        seen->insert(h);
        stats.distinct_programs = seen->size();
        for(auto& t : p.tasks)
        {
            if(t.parent > 0)
                stats.children++;
            if(t.depth >= 0 && (uint64_t) t.depth > stats.max_depth)
                stats.max_depth = t.depth;
        }
    }

    void on_submit(int parent, int t)
    {
        Lock l;
        need(!T[t].submitted, "INTERNAL", fmt("t%d submitted twice by the harness", t));
        T[t].submitted = true;
        T[t].order = ++order;
        T[parent].children.push_back(t);
        stats.tasks++;
    }

    void on_begin(int t, int)
    {
        Lock l;
        auto& s = T[t];
        need(s.submitted, "PHANTOM", fmt("t%d begins but was not created", t));
        need(!s.begun, "TWICE", fmt("the body of t%d begins a second time", t));
        s.begun = s.running = true;
        bool overlap = false;
        for(int o : T[P->tasks[t].parent].children)
        {
            if(o == t)
                break;
            if(!T[o].ended)
                overlap = true;
            if(conflict(T[o].cur, P->tasks[t].acc))
            {
                stats.order_checks++;
                char const* why = "";
                if(!done(o, &why))
                    need(
                        false,
                        "ORDER",
                        fmt("t%d %s begins although the earlier task t%d %s%s %s",
                            t,
                            str(P->tasks[t].acc).c_str(),
                            o,
                            str(T[o].cur).c_str(),
                            T[o].demoted ? " (after demotion)" : "",
                            why));
            }
            else if(T[o].demoted && conflict(P->tasks[o].acc, P->tasks[t].acc) && !T[o].ended)
                stats.released++;
        }
        if(overlap)
            stats.overlaps++;
    }

    void on_end(int t)
    {
        Lock l;
        auto& s = T[t];
        need(s.running, "EXCL", fmt("t%d ends its body although it is not running it", t));
        need(
            s.pc == (int) P->tasks[t].body.size(),
            "LOST",
            fmt("t%d ends after %d of %zu actions", t, s.pc, P->tasks[t].body.size()));
        s.running = false;
        s.ended = true;
    }

    void on_step(int t)
    {
        Lock l;
        auto& s = T[t];
        need(
            s.begun && s.running && !s.ended,
            "EXCL",
            fmt("t%d performs an action while it should not run (pc %d)", t, s.pc));
        s.pc++;
    }

    void on_event_created(int e)
    {
        Lock l;
        E[e].created = true;
        T[P->events[e].creator].evs.push_back(e);
        stats.events++;
    }

    void on_notify(int e)
    {
        Lock l;
        E[e].notified = true;
        if(P->events[e].by == 0)
            stats.ext_notify++;
    }

    bool event_created(int e)
    {
        Lock l;
        return E[e].created;
    }

    bool event_notified(int e)
    {
        Lock l;
        return E[e].notified;
    }

    void on_wait(int t, int worker, bool on_event, int what)
    {
        Lock l;
        auto& s = T[t];
        need(s.running && !s.waiting, "EXCL", fmt("t%d waits while it should not run", t));
        bool already = on_event ? E[what].notified : T[what].ended;
        s.running = false;
        s.waiting = true;
        s.wait_worker = worker;
        stats.waits++;
        if(!already)
            stats.suspended++;
    }

    void on_wait_done(int t, int worker, bool on_event, int what)
    {
        Lock l;
        auto& s = T[t];
        need(
            s.waiting,
            "RESUME",
            fmt("t%d continues a second time after waiting for %c%d", t, on_event ? 'e' : 't', what));
        s.waiting = false;
        s.running = true;
        if(worker != s.wait_worker)
            stats.migrated++;
        if(on_event)
            need(E[what].notified, "EARLY", fmt("t%d continues after e%d which was not notified", t, what));
        else
            need(
                T[what].ended,
                "EARLY",
                fmt("get() of t%d in t%d returns before the body of t%d has ended", what, t, what));
    }

    void on_demote(int t, std::vector<Acc> const& rm, std::vector<Acc> const& add)
    {
        Lock l;
        apply(T[t].cur, rm, add);
        T[t].demoted++;
        stats.demotions++;
    }

    void count(uint64_t& c)
    {
        __atomic_fetch_add(&c, 1, __ATOMIC_RELAXED);
    }

    void on_refused(int)
    {
        Lock l;
        stats.refused++;
    }

    void on_ready(int t, bool r)
    {
        Lock l;
        if(r)
        {
            stats.ready_true++;
            need(T[t].ended, "READY", fmt("is_ready() of t%d is true before its body ended", t));
            T[t].ready_seen = true;
        }
        else
        {
            stats.ready_false++;
            need(!T[t].ready_seen, "READY", fmt("is_ready() of t%d is false after it was true", t));
        }
    }

    void on_result(int t, bool ok)
    {
        Lock l;
        stats.gets++;
        need(ok, "VALUE", fmt("get() of t%d does not return the value of its callable", t));
    }

    void on_release(int t)
    {
        Lock l;
        T[t].released = true;
    }

    void on_barrier_return()
    {
        Lock l;
        stats.barriers++;
        for(int c : T[0].children)
        {
            char const* why = "";
            if(!done(c, &why))
                need(false, "BARRIER", fmt("barrier() returns although t%d %s", c, why));
            need(
                T[c].trackers == 0,
                "BARRIER-DESTROY",
                fmt("barrier() returns although objects captured by t%d are not destroyed", c));
        }
    }

    void tracker_born(int t)
    {
        Lock l;
        T[t].trackers++;
        T[t].had_tracker = true;
        stats.trackers++;
    }

    void tracker_died(int t)
    {
        Lock l;
        need(T[t].trackers > 0, "DESTROY", fmt("objects captured by t%d are destroyed twice", t));
        T[t].trackers--;
        if(T[t].trackers == 0 && T[t].begun)
            need(T[t].ended, "DESTROY", fmt("objects captured by t%d are destroyed while its body runs", t));
    }

    void on_task_id(int t, uint64_t id)
    {
        Lock l;
        need(ids->insert(id).second, "ID", fmt("task id %llu of t%d is not unique", (unsigned long long) id, t));
        for(int o : T[P->tasks[t].parent].children)
        {
            if(o == t)
                break;
            if(T[o].has_id)
                need(T[o].id < id, "ID", fmt("task ids do not increase: t%d and t%d", o, t));
        }
        T[t].id = id;
        T[t].has_id = true;
    }

    uint64_t task_id(int t)
    {
        Lock l;
        return T[t].id;
    }

    void check_quiescent()
    {
        Lock l;
        std::vector<char> ev(E.size());
        for(size_t i = 0; i < E.size(); ++i)
            ev[i] = P->events[i].by == 0 && E[i].notified;
        Model m(*P, ev);
        stats.quiescent++;
        for(size_t t = 0; t < T.size(); ++t)
        {
            auto& s = T[t];
            if(m.submitted[t] && !m.started[t])
            {
                stats.blocked_seen++;
                int why = -1;
                m.startable(t, &why);
                if(why >= 0 && T[why].demoted)
                    stats.held++;
            }
            if(m.started[t] && !s.begun && m.submitted[t] && s.submitted)
                need(
                    false,
                    "STUCK",
                    fmt("t%zu %s does not begin although nothing it conflicts with is unfinished and no thread has "
                        "anything to do",
                        t,
                        str(P->tasks[t].acc).c_str()));
        }
        for(size_t t = 0; t < T.size(); ++t)
        {
            auto& s = T[t];
            if(s.begun && !m.started[t])
                need(false, "ORDER", fmt("t%zu has begun although it has to wait", t));
            if(s.pc < m.pc[t])
            {
                auto& a = P->tasks[t].body[s.pc];
                char const* k = a.act == Act::GET       ? "get()"
                                : a.act == Act::YIELD   ? "yield()"
                                : a.act == Act::BARRIER ? "barrier()"
                                                        : "an action";
                need(
                    false,
                    a.act == Act::BARRIER ? "BARRIER-STUCK" : "WAIT-STUCK",
                    fmt("t%zu does not continue after %s of %d although what it waits for has happened and no "
                        "thread has anything to do",
                        t,
                        k,
                        a.x));
            }
            if(s.pc > m.pc[t])
                need(false, "EARLY", fmt("t%zu has continued although what it waits for has not happened", t));
            if(m.body[t] && !s.ended && t)
                need(false, "STUCK", fmt("the body of t%zu does not end", t));
            if(t && m.freed_flag[t] && s.trackers)
                need(
                    false,
                    "LEAK",
                    fmt("t%zu is finished and its result released, but what it captured is not destroyed", t));
            if(t && !m.freed_flag[t] && s.had_tracker && !s.trackers && m.submitted[t])
                need(false, "DESTROY", fmt("what t%zu captured is destroyed although it is not finished", t));
        }
    }

    bool all_done()
    {
        Lock l;
        for(size_t t = 1; t < T.size(); ++t)
            if(!T[t].ended || !done(t))
                return false;
        return true;
    }

    int pick_withheld(uint64_t r, bool eager)
    {
        Lock l;
        std::vector<int> c;
        for(size_t i = 0; i < E.size(); ++i)
            if(E[i].created && !E[i].notified && P->events[i].by == 0 && (!eager || P->events[i].eager))
                c.push_back(i);
        return c.empty() ? -1 : c[r % c.size()];
    }

    void on_finalized()
    {
        Lock l;
        for(size_t t = 1; t < T.size(); ++t)
        {
            need(T[t].submitted, "LOST", fmt("t%zu was never created", t));
            need(T[t].begun, "LOST", fmt("t%zu was never executed", t));
            need(T[t].ended && done(t), "FINALIZE", fmt("finalize() returned but t%zu is not finished", t));
            need(T[t].trackers == 0, "LEAK", fmt("what t%zu captured was not destroyed", t));
        }
    }

    void run_end()
    {
    }
} // namespace pm
