// C12: guards of I/O and field resources refer to the one object, register their own mode and area, give access to
// exactly that area and keep the object alive.
#include "access_model.hpp"

#include <redGrapes/resource/fieldresource.hpp>
#include <redGrapes/resource/ioresource.hpp>

namespace
{
    enum
    {
        ELEM = 1,
        THING = 2
    };

    std::atomic<long> g_access, g_outside, g_widen, g_tasks_ran, g_regs;

    struct Elem
    {
        long v = 0;

        Elem()
        {
            hx::born(this, ELEM);
        }

        explicit Elem(long v) : v(v)
        {
            hx::born(this, ELEM);
        }

        Elem(Elem const& o) : v(o.v)
        {
            hx::born(this, ELEM);
        }

        Elem& operator=(Elem const&) = default;

        ~Elem()
        {
            hx::died(this, ELEM);
        }
    };

    //! object of an I/O resource
    struct Thing
    {
        long a, b;
        std::string s;

        Thing(long a = 1, long b = 2, std::string s = "-") : a(a), b(b), s(std::move(s))
        {
            hx::born(this, THING);
        }

        Thing(Thing const&) = delete;

        ~Thing()
        {
            hx::died(this, THING);
        }
    };

    //! a container of the user
    struct Grid3
    {
        static constexpr size_t N[3] = {3, 4, 2};
        std::unique_ptr<Elem[]> e{new Elem[24]};
        Elem first; // to have something that belongs to the object itself
    };

    using V = std::vector<Elem>;
    using A1 = std::array<Elem, 7>;
    using A2 = std::array<std::array<Elem, 5>, 4>; // [4][5]
} // namespace

namespace redGrapes::trait
{
    template<>
    struct Field<Grid3>
    {
        using Item = Elem;
        static constexpr size_t dim = 3;

        static Item& get(Grid3& g, std::array<size_t, 3> i)
        {
            return g.e[(i[2] * 4 + i[1]) * 3 + i[0]];
        }
    };
} // namespace redGrapes::trait

namespace
{
    template<typename C>
    struct Info;

    template<>
    struct Info<V>
    {
        static constexpr char const* name = "vector";

        static std::array<size_t, 1> size(V& v)
        {
            return {v.size()};
        }

        static Elem* elem(V& v, std::array<size_t, 1> i)
        {
            return v.data() + i[0];
        }
    };

    template<>
    struct Info<A1>
    {
        static constexpr char const* name = "array";

        static std::array<size_t, 1> size(A1&)
        {
            return {7};
        }

        static Elem* elem(A1& v, std::array<size_t, 1> i)
        {
            return &v[0] + i[0];
        }
    };

    template<>
    struct Info<A2>
    {
        static constexpr char const* name = "2-d array";

        static std::array<size_t, 2> size(A2&)
        {
            return {5, 4};
        }

        static Elem* elem(A2& v, std::array<size_t, 2> i)
        {
            return &v[i[1]][i[0]];
        }
    };

    template<>
    struct Info<Grid3>
    {
        static constexpr char const* name = "container of the user";

        static std::array<size_t, 3> size(Grid3&)
        {
            return {3, 4, 2};
        }

        static Elem* elem(Grid3& g, std::array<size_t, 3> i)
        {
            return &g.e[(i[2] * 4 + i[1]) * 3 + i[0]];
        }
    };

    bool registered(std::vector<rg::ResourceAccess> want, char const* what)
    {
        // the accesses of the current task
        std::vector<rg::ResourceAccess> have;
        for(auto a = rg::SingletonContext::get().current_task->access_list.rbegin(); a != rg::SingletonContext::get().current_task->access_list.rend(); ++a)
            have.push_back(*a);
        g_regs++;
        if(have.size() != want.size())
            found("GUARD", "%s: %zu accesses are registered instead of %zu", what, have.size(), want.size());
        for(auto& w : want)
        {
            auto i = std::find_if(have.begin(), have.end(), [&](auto const& h) { return h == w && w == h && h.is_same_resource(w); });
            if(i == have.end())
                found("GUARD", "%s: the access %s is not registered", what, w.mode_format().c_str());
            have.erase(i);
        }
        return true;
    }

    //------------------------------------------------------------------------ fields

    template<typename C>
    struct FieldModel
    {
        static constexpr size_t dim = rg::trait::Field<C>::dim;
        using Res = rg::Resource<FieldAccess<dim>>;
        using Index = std::array<size_t, dim>;
        using Read = rg::fieldresource::ReadGuard<C>;
        using Write = rg::fieldresource::WriteGuard<C>;

        //! what a guard stands for
        struct Spec
        {
            C* obj;
            Res res;
            Index begin, end;
            bool write;

            rg::ResourceAccess access(bool as_write) const
            {
                std::array<AreaAccess, dim> a;
                for(size_t d = 0; d < dim; ++d)
                    a[d] = AreaAccess(std::array<size_t, 2>{begin[d], end[d]});
                return res.make_access(FieldAccess<dim>(
                    as_write ? IOAccess::write : IOAccess::read,
                    ArrayAccess<AreaAccess, dim, And_t>(a)));
            }

            rg::ResourceAccess access() const
            {
                return access(write);
            }

            bool contains(Index i) const
            {
                for(size_t d = 0; d < dim; ++d)
                    if(i[d] < begin[d] || i[d] >= end[d])
                        return false;
                return true;
            }

            bool covers(Index b, Index e) const
            {
                for(size_t d = 0; d < dim; ++d)
                    if(b[d] < begin[d] || e[d] > end[d])
                        return false;
                return true;
            }

            std::string text() const
            {
                std::string s = fmt_("%s guard of a %s, area", write ? "write" : "read", Info<C>::name);
                for(size_t d = 0; d < dim; ++d)
                    s += fmt_(" [%zu,%zu)", begin[d], end[d]);
                return s;
            }
        };

        template<typename G>
        static constexpr bool is_write = !std::is_same<std::decay_t<G>, Read>::value;

        template<typename G>
        using Arg = std::conditional_t<is_write<G>, Write, Read>;

        //! a random index: inside the container or at the borders of the area
        static Index index(Rng& r, Spec const& s)
        {
            Index n = Info<C>::size(*s.obj), i;
            for(size_t d = 0; d < dim; ++d)
            {
                switch(r.upto(6))
                {
                case 0:
                    i[d] = s.begin[d] - 1;
                    break;
                case 1:
                    i[d] = s.end[d];
                    break;
                case 2:
                    i[d] = s.end[d] - 1;
                    break;
                case 3:
                    i[d] = s.begin[d];
                    break;
                default:
                    i[d] = n[d] ? r.upto(n[d]) : 0;
                }
            }
            return i;
        }

        //! the guard stands for `s`
        template<typename G>
        static void check(Rng& r, G const& g, Spec const& s)
        {
            if(!(((rg::ResourceAccess) g) == s.access(is_write<G>)))
                found(
                    "GUARD",
                    "%s: registers %s instead of %s",
                    s.text().c_str(),
                    ((rg::ResourceAccess) g).mode_format().c_str(),
                    s.access(is_write<G>).mode_format().c_str());
            if(g.operator->() != s.obj)
                found("GUARD", "%s: refers to another object", s.text().c_str());
            Index n = Info<C>::size(*s.obj);
            for(int k = 0; k < 6; ++k)
            {
                Index i = index(r, s);
                bool in = s.contains(i), exists = true;
                for(size_t d = 0; d < dim; ++d)
                    exists &= i[d] < n[d];
                if(g.contains(i) != in)
                    found("GUARD", "%s: contains(%zu,..) is wrong", s.text().c_str(), i[0]);
                if(in && !exists)
                    continue; // not checked by the guard
                Elem const* e = nullptr;
                bool thrown = false;
                try
                {
                    e = &g[i];
                }
                catch(std::out_of_range&)
                {
                    thrown = true;
                }
                if(in)
                {
                    g_access++;
                    if(thrown)
                        found("GUARD", "%s: no access to the index (%zu,..) inside the area", s.text().c_str(), i[0]);
                    if(e != Info<C>::elem(*s.obj, i))
                        found("GUARD", "%s: the index (%zu,..) refers to another element", s.text().c_str(), i[0]);
                    if(!hx::alive(e, ELEM))
                        found("LIFETIME", "%s: the element is not alive", s.text().c_str());
                }
                else
                {
                    g_outside++;
                    if(!thrown)
                        found("GUARD", "%s: access to the index (%zu,..) outside of the area", s.text().c_str(), i[0]);
                }
            }
        }

        //! an element of the area
        template<typename G>
        static Elem* some(Rng& r, G const& g, Spec const& s)
        {
            Index n = Info<C>::size(*s.obj), i;
            for(size_t d = 0; d < dim; ++d)
            {
                size_t e = std::min(s.end[d], n[d]);
                if(e <= s.begin[d])
                    return nullptr;
                i[d] = s.begin[d] + r.upto(e - s.begin[d]);
            }
            return const_cast<Elem*>(&g[i]);
        }

        //! what a task does with a guard
        template<typename G>
        static void use(Rng& r, G const& g, Spec const& s)
        {
            check(r, g, s);
            for(int k = 0; k < 3; ++k)
                if(Elem* e = some(r, g, s))
                {
                    long x = e->v;
                    if(is_write<G>)
                        e->v = x + 1;
                }
        }

        //! derive a guard and continue with it
        template<typename G, typename F>
        static void derive(Rng& r, G const& g, Spec s, F f)
        {
            Index n = Info<C>::size(*s.obj);
            switch(r.upto(6))
            {
            case 0:
                {
                    G copy(g);
                    f(copy, s);
                    break;
                }
            case 1:
                {
                    s.write = false;
                    if(r.p(50))
                        f(g.read(), s);
                    else
                    {
                        Read slice(g);
                        f(slice, s);
                    }
                    break;
                }
            case 2:
                if constexpr(is_write<G>)
                {
                    f(g.write(), s);
                    break;
                }
                [[fallthrough]];
            case 3:
                {
                    // a single element
                    Index i = index(r, s);
                    Index e = i;
                    for(size_t d = 0; d < dim; ++d)
                    {
                        if(i[d] == MAXI)
                            return;
                        e[d]++;
                    }
                    bool ok = s.covers(i, e);
                    try
                    {
                        auto h = g.at(i);
                        if(!ok)
                            found("GUARD", "%s: at(%zu,..) gives access to an element outside", s.text().c_str(), i[0]);
                        s.begin = i;
                        s.end = e;
                        f(h, s);
                    }
                    catch(std::out_of_range&)
                    {
                        if(ok)
                            found("GUARD", "%s: at(%zu,..) is refused", s.text().c_str(), i[0]);
                        g_widen++;
                    }
                    break;
                }
            default:
                {
                    Index b, e;
                    for(size_t d = 0; d < dim; ++d)
                    {
                        b[d] = r.p(50) ? s.begin[d] : s.begin[d] + r.upto(n[d] + 1);
                        e[d] = r.p(50) && s.end[d] != MAXI ? s.end[d] : b[d] + 1 + r.upto(n[d]);
                        if(r.p(12) && s.begin[d])
                            b[d] = s.begin[d] - 1;
                        if(r.p(12))
                            e[d] = s.end[d] < MAXI ? s.end[d] + 1 : MAXI;
                        if(r.p(3) && s.begin[d])
                            b[d] = 0;
                        if(r.p(3))
                            e[d] = MAXI;
                        if(b[d] >= e[d])
                            return;
                    }
                    bool ok = s.covers(b, e);
                    try
                    {
                        auto h = g.area(b, e);
                        if(!ok)
                            found(
                                "GUARD",
                                "%s: area([%zu,%zu)..) widens the area",
                                s.text().c_str(),
                                b[0],
                                e[0]);
                        s.begin = b;
                        s.end = e;
                        f(h, s);
                    }
                    catch(std::out_of_range&)
                    {
                        if(ok)
                            found("GUARD", "%s: area([%zu,%zu)..) is refused", s.text().c_str(), b[0], e[0]);
                        g_widen++;
                    }
                }
            }
        }

        template<typename G>
        static void body(uint64_t seed, G const& g, Spec const& s, int depth)
        {
            Rng r(seed);
            g_tasks_ran++;
            vf::progress();
            use(r, g, s);
            if(depth < 2)
                for(int k = r.upto(3); k > 0; --k)
                    derive(
                        r,
                        g,
                        s,
                        [&](auto const& h, Spec const& t)
                        {
                            // as the last thing: with a child on its way the data is the child's
                            if(k == 1 && r.p(70))
                                task(r, h, t, depth + 1);
                            else
                                use(r, h, t);
                        });
        }

        template<typename G>
        static void task(Rng& r, G const& g, Spec s, int depth)
        {
            s.write = is_write<G>;
            uint64_t seed = r();
            if(r.p(50))
                rg::emplace_task(
                    [seed, s, depth](Arg<G> h)
                    {
                        registered({s.access()}, "task with a field guard by value");
                        body(seed, h, s, depth);
                    },
                    Arg<G>(g));
            else
            {
                // by reference to the bound copy, and a second guard
                rg::emplace_task(
                    [seed, s, depth](Arg<G> const& h, Read const& h2)
                    {
                        Spec s2 = s;
                        s2.write = false;
                        registered({s.access(), s2.access()}, "task with two field guards");
                        Rng r2(seed + 1);
                        check(r2, h2, s2);
                        body(seed, h, s, depth);
                    },
                    Arg<G>(g),
                    g.read());
            }
        }
    };

    struct Holder
    {
        virtual ~Holder() = default;
        virtual void step(Rng& r, std::vector<std::shared_ptr<Holder>>& pool) = 0;
    };

    template<typename C, typename G>
    struct FieldHolder : Holder
    {
        using FM = FieldModel<C>;
        G g;
        typename FM::Spec s;

        FieldHolder(G const& g, typename FM::Spec s) : g(g), s(s)
        {
        }

        void step(Rng& r, std::vector<std::shared_ptr<Holder>>& pool) override
        {
            int w = r.upto(10);
            if(w < 3)
                FM::check(r, g, s);
            else if(w < 7)
                FM::derive(
                    r,
                    g,
                    s,
                    [&](auto const& h, auto const& t)
                    {
                        using H = std::decay_t<decltype(h)>;
                        auto u = t;
                        u.write = FM::template is_write<H>;
                        FM::check(r, h, u);
                        if(pool.size() < 24)
                            pool.push_back(std::make_shared<FieldHolder<C, H>>(h, u));
                    });
            else
                FM::task(r, g, s, r.p(40) ? 0 : 2);
        }
    };

    template<typename C, typename... Args>
    void new_field(Rng& r, std::vector<std::shared_ptr<Holder>>& pool, Args&&... args)
    {
        using FM = FieldModel<C>;
        auto add = [&](rg::FieldResource<C> const& f)
        {
            typename FM::Index b, e;
            b.fill(0);
            e.fill(MAXI);
            typename FM::Spec s{f.obj.get(), f, b, e, true};
            if(r.p(50))
                pool.push_back(std::make_shared<FieldHolder<C, rg::FieldResource<C>>>(f, s));
            else
                pool.push_back(std::make_shared<FieldHolder<C, rg::fieldresource::WriteGuard<C>>>(f, s));
        };
        if(r.p(40))
        {
            C* c = new C(std::forward<Args>(args)...);
            rg::FieldResource<C> f(c);
            if(f.operator->() != c)
                found("GUARD", "a field resource does not refer to the object which it was given");
            add(f);
        }
        else
            add(rg::FieldResource<C>(std::forward<Args>(args)...));
    }

    //------------------------------------------------------------------------ I/O resources

    struct IOSpec
    {
        Thing* obj;
        rg::Resource<IOAccess> res;
        bool write;

        rg::ResourceAccess access() const
        {
            return res.make_access(write ? IOAccess::write : IOAccess::read);
        }
    };

    using IORead = rg::ioresource::ReadGuard<Thing>;
    using IOWrite = rg::ioresource::WriteGuard<Thing>;

    template<typename G>
    constexpr bool io_write = !std::is_same<std::decay_t<G>, IORead>::value;

    template<typename G>
    using IOArg = std::conditional_t<io_write<G>, IOWrite, IORead>;

    template<typename G>
    void io_check(G const& g, IOSpec const& s)
    {
        g_access++;
        char const* n = io_write<G> ? "write guard of an I/O resource" : "read guard of an I/O resource";
        if(!(((rg::ResourceAccess) g) == s.res.make_access(io_write<G> ? IOAccess::write : IOAccess::read)))
            found("GUARD", "%s: registers %s", n, ((rg::ResourceAccess) g).mode_format().c_str());
        if(&*g != s.obj || g.get() != s.obj || g.operator->() != s.obj)
            found("GUARD", "%s: refers to another object", n);
        if(!hx::alive(g.get(), THING))
            found("LIFETIME", "%s: the object is not alive", n);
    }

    template<typename G>
    void io_use(G const& g, IOSpec const& s)
    {
        io_check(g, s);
        long a = g->a, b = (*g).b;
        if(b != a + 1)
            found("GUARD", "I/O resource: the object changes during a task (%ld %ld)", a, b);
        if constexpr(io_write<G>)
        {
            g->a = a + 1;
            vf::point();
            (*g).b = b + 1;
        }
    }

    template<typename G, typename F>
    void io_derive(Rng& r, G const& g, IOSpec s, F f)
    {
        switch(r.upto(4))
        {
        case 0:
            {
                G copy(g);
                f(copy, s);
                break;
            }
        case 1:
            if constexpr(io_write<G>)
            {
                f(g.write(), s);
                break;
            }
            [[fallthrough]];
        case 2:
            s.write = false;
            f(g.read(), s);
            break;
        default:
            {
                s.write = false;
                IORead slice(g);
                f(slice, s);
            }
        }
    }

    template<typename G>
    void io_task(Rng& r, G const& g, IOSpec s, int depth)
    {
        s.write = io_write<G>;
        uint64_t seed = r();
        rg::emplace_task(
            [seed, s, depth](IOArg<G> h)
            {
                registered({s.access()}, "task with a guard of an I/O resource");
                Rng r2(seed);
                g_tasks_ran++;
                vf::progress();
                io_use(h, s);
                if(depth < 2)
                    for(int k = r2.upto(3); k > 0; --k)
                        io_derive(
                            r2,
                            h,
                            s,
                            [&](auto const& d, IOSpec const& t)
                            {
                                // one at a time: with a child on its way the object is the child's
                                if(k == 1 && r2.p(60))
                                    io_task(r2, d, t, depth + 1);
                                else
                                    io_use(d, t);
                            });
            },
            IOArg<G>(g));
    }

    template<typename G>
    struct IOHolder : Holder
    {
        G g;
        IOSpec s;

        IOHolder(G const& g, IOSpec s) : g(g), s(s)
        {
        }

        void step(Rng& r, std::vector<std::shared_ptr<Holder>>& pool) override
        {
            int w = r.upto(10);
            if(w < 2)
                io_check(g, s);
            else if(w < 5)
                io_derive(
                    r,
                    g,
                    s,
                    [&](auto const& h, IOSpec t)
                    {
                        using H = std::decay_t<decltype(h)>;
                        t.write = io_write<H>;
                        io_check(h, t);
                        if(pool.size() < 24)
                            pool.push_back(std::make_shared<IOHolder<H>>(h, t));
                    });
            else
                io_task(r, g, s, r.p(40) ? 0 : 2);
        }
    };

    void new_io(Rng& r, std::vector<std::shared_ptr<Holder>>& pool)
    {
        auto add = [&](rg::IOResource<Thing> const& f, long a, char const* str)
        {
            IOSpec s{f.obj.get(), f, true};
            if(f->a != a || f->b != a + 1 || f->s != str)
                found("GUARD", "I/O resource: the object is not constructed from the arguments");
            if(r.p(50))
                pool.push_back(std::make_shared<IOHolder<rg::IOResource<Thing>>>(f, s));
            else
                pool.push_back(std::make_shared<IOHolder<IOWrite>>(f, s));
        };
        switch(r.upto(3))
        {
        case 0:
            add(rg::IOResource<Thing>(), 1, "-");
            break;
        case 1:
            add(rg::IOResource<Thing>(10, 11, "abc"), 10, "abc");
            break;
        default:
            {
                auto p = std::make_shared<Thing>(5, 6);
                rg::IOResource<Thing> f(p);
                if(f.get() != p.get())
                    found("GUARD", "an I/O resource does not refer to the object which it was given");
                add(f, 5, "-");
            }
        }
    }
} // namespace

void guard_case(uint64_t seed)
{
    Rng r(seed);
    int workers = r.range(1, 4), steps = r.range(10, 60);
    hx::describe(fmt_("guards workers=%d steps=%d", workers, steps));
    mw::new_generation();
    vf::sched_begin(vf::random_cfg(seed * 31 + 17, hx::mode()));
    rg::init(workers);
    {
        std::vector<std::shared_ptr<Holder>> pool;
        auto create = [&]
        {
            switch(r.upto(5))
            {
            case 0:
                new_io(r, pool);
                break;
            case 1:
                new_field<V>(r, pool, (size_t) r.range(1, 9));
                break;
            case 2:
                new_field<A1>(r, pool);
                break;
            case 3:
                new_field<A2>(r, pool);
                break;
            default:
                new_field<Grid3>(r, pool);
            }
        };
        create();
        for(int i = 0; i < steps; ++i)
        {
            if(pool.empty() || r.p(8))
                create();
            unsigned k = r.upto(pool.size());
            auto h = pool[k];
            h->step(r, pool);
            // guards may be dropped before the tasks run
            if(r.p(30))
                pool.erase(pool.begin() + k);
            if(r.p(4))
            {
                rg::barrier();
                hx::stat("barriers");
            }
        }
        if(r.p(50))
            pool.clear();
        rg::barrier();
    }
    rg::finalize();
    if(long l = hx::live_objects(-1))
        found("LIFETIME", "%ld objects of resources are alive after finalize()", l);
    check_no_blocks();
    vf::sched_end();
    hx::stat("accesses_inside", g_access.exchange(0));
    hx::stat("accesses_outside", g_outside.exchange(0));
    hx::stat("widenings_refused", g_widen.exchange(0));
    hx::stat("registrations", g_regs.exchange(0));
    long t = g_tasks_ran.exchange(0);
    hx::stat("tasks", t);
    hx::reset_objects();
    hx::case_done(t > 0);
}
