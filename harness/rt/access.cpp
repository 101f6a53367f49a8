// C11: the relations between accesses against a denotational model.
#include "access_model.hpp"

namespace
{
    template<typename A>
    void check_pair(char const* name, A const& a, A const& b)
    {
        bool s = A::is_serial(a, b), ms = model_serial(a, b);
        auto t = [&] { return fmt_("%s: %s and %s", name, M<A>::text(a).c_str(), M<A>::text(b).c_str()); };
        hx::stat("pairs");
        if(ms)
            hx::stat("conflicting_pairs");
        if(s != ms)
            found("ACCESS", "%s: %s", t().c_str(), s ? "reported as conflicting, but all operations commute" : "conflicting operations are not reported");
        if(A::is_serial(b, a) != s)
            found("ACCESS", "%s: conflict is not symmetric", t().c_str());
        bool c = a.is_superset_of(b), mc = model_superset(a, b);
        if(mc)
            hx::stat("covering_pairs");
        if(c && !mc)
            found("ACCESS", "%s: the first is said to cover the second, but does not permit everything", t().c_str());
        if(mc && !c && !M<A>::hollow(b))
            found("ACCESS", "%s: the first covers the second, which is denied", t().c_str());
        if(!a.is_superset_of(a))
            found("ACCESS", "%s: does not cover itself", t().c_str());
        if(a.is_synchronizing())
        {
            hx::stat("synchronizing");
            if(!none_(b) && !s)
                found("ACCESS", "%s: the first is synchronizing, but there is no conflict", t().c_str());
        }
        bool e = a == b;
        if(e && (!c || !b.is_superset_of(a)))
            found("ACCESS", "%s: equal accesses do not cover each other", t().c_str());
        if(!e && c && b.is_superset_of(a))
            found("ACCESS", "%s: accesses which cover each other are not equal", t().c_str());
        if(!(a == a))
            found("ACCESS", "%s: not equal to itself", t().c_str());
    }

    template<typename A>
    void check_triple(char const* name, A const& a, A const& b, A const& c)
    {
        if(a.is_superset_of(b) && b.is_superset_of(c))
        {
            hx::stat("transitive");
            if(!a.is_superset_of(c))
                found("ACCESS", "%s: coverage is not transitive: %s %s %s", name, M<A>::text(a).c_str(), M<A>::text(b).c_str(), M<A>::text(c).c_str());
        }
        if(a.is_superset_of(b) && A::is_serial(b, c) && !A::is_serial(a, c))
            found("ACCESS", "%s: %s conflicts with %s, but %s, which covers it, does not", name, M<A>::text(b).c_str(), M<A>::text(c).c_str(), M<A>::text(a).c_str());
    }

    // ---------------------------------------------------------- accesses to resources and lists of them

    void check_access(Resources const& rs, RA const& a, RA const& b)
    {
        auto x = make(rs, a), y = make(rs, b);
        auto t = [&] { return text(a) + " and " + text(b); };
        hx::stat("access_pairs");
        if(rg::ResourceAccess::is_serial(x, y) != m_serial(a, b))
            found("ACCESS", "conflict of the accesses %s is %d", t().c_str(), (int) !m_serial(a, b));
        bool c = x.is_superset_of(y);
        if(c && !m_covers(a, b))
            found("ACCESS", "%s: said to cover", t().c_str());
        if(!c && m_covers(a, b) && !m_empty(b))
            found("ACCESS", "%s: coverage is denied", t().c_str());
        if((x == y) != m_equal(a, b))
            found("ACCESS", "%s: equality is %d", t().c_str(), (int) (x == y));
        if(x.is_same_resource(y) != (a.type == b.type && a.res == b.res))
            found("ACCESS", "%s: is_same_resource() is wrong", t().c_str());
        if((x.get_resource() == y.get_resource()) != (a.type == b.type && a.res == b.res))
            found("ACCESS", "%s: get_resource() is wrong", t().c_str());
        rg::ResourceAccess z(x);
        if(!(z == x) || rg::ResourceAccess::is_serial(z, y) != m_serial(a, b))
            found("ACCESS", "%s: a copy behaves differently", t().c_str());
        z = y;
        if(!(z == y))
            found("ACCESS", "%s: an assigned access differs", t().c_str());
    }

    void check_lists(Resources const& rs, Rng& rnd, int nres)
    {
        rg::ResourceUser u[3];
        List m[3];
        int steps = rnd.range(1, 30);
        for(int i = 0; i < steps; ++i)
        {
            int k = rnd.upto(3);
            if(rnd.p(25) && !m[k].l.empty())
            {
                // removing takes every equal access out of the list
                RA a = rnd.p(80) ? m[k].l[rnd.upto(m[k].l.size())] : random_ra(rnd, nres);
                u[k].rm_resource_access(make(rs, a));
                m[k].l.erase(std::remove_if(m[k].l.begin(), m[k].l.end(), [&](RA const& b) { return m_equal(a, b); }), m[k].l.end());
                hx::stat("list_removals");
            }
            else
            {
                RA a = random_ra(rnd, nres);
                // sometimes a part of an access of another list
                int o = rnd.upto(3);
                if(rnd.p(50) && !m[o].l.empty())
                {
                    a = m[o].l[rnd.upto(m[o].l.size())];
                    if(rnd.p(40))
                        a.io = M<IOAccess>::random(rnd, 4);
                    if(rnd.p(40))
                        a.f1 = M<Field1>::random(rnd, 4);
                    if(rnd.p(40))
                        a.f2 = M<Field2>::random(rnd, 3);
                }
                u[k].add_resource_access(make(rs, a));
                m[k].l.push_back(a);
            }
            if(rnd.p(60))
                continue;
            for(int x = 0; x < 3; ++x)
                for(int y = 0; y < 3; ++y)
                {
                    hx::stat("list_pairs");
                    bool s = m[x].serial(m[y]);
                    if(s)
                        hx::stat("conflicting_lists");
                    if(rg::ResourceUser::is_serial(u[x], u[y]) != s)
                        found("ACCESS", "lists %s and %s: conflict is %d", m[x].text_().c_str(), m[y].text_().c_str(), (int) !s);
                    int c = m[x].covers(m[y]);
                    if(c == 1)
                        hx::stat("covering_lists");
                    bool uc = u[x].is_superset_of(u[y]);
                    if(uc != rg::ResourceUser::is_superset(u[x], u[y]))
                        found("ACCESS", "is_superset() and is_superset_of() differ");
                    if(c >= 0 && uc != (bool) c)
                        found("ACCESS", "lists %s and %s: coverage is %d", m[x].text_().c_str(), m[y].text_().c_str(), (int) uc);
                }
            int x = rnd.upto(3);
            rg::ResourceUser copy(u[x]);
            int y = rnd.upto(3);
            if(rg::ResourceUser::is_serial(copy, u[y]) != m[x].serial(m[y]))
                found("ACCESS", "a copy of the list %s behaves differently", m[x].text_().c_str());
            size_t n = 0;
            for(auto it = copy.access_list.rbegin(); it != copy.access_list.rend(); ++it)
                ++n;
            if(n != m[x].l.size())
                found("ACCESS", "the copy of a list with %zu accesses has %zu", m[x].l.size(), n);
            for(auto& a : m[x].l)
            {
                auto r = make(rs, a).get_resource();
                if(u[x].has_sync_access(r) != m[x].sync(rs, r))
                    found("ACCESS", "list %s: synchronizing access to %s is %d", m[x].text_().c_str(), text(a).c_str(), (int) !m[x].sync(rs, r));
                // every accessed resource is listed
                int k = 0;
                for(auto it = u[x].unique_resources.rbegin(); it != u[x].unique_resources.rend(); ++it)
                    k += it->resource == r;
                if(k != 1)
                    found("ACCESS", "list %s: resource of %s is listed %d times", m[x].text_().c_str(), text(a).c_str(), k);
            }
            if(u[x].has_sync_access(rs.io.back().make_access(IOAccess()).get_resource()) != m[x].sync(rs, rs.io.back().make_access(IOAccess()).get_resource()))
                found("ACCESS", "list %s: synchronizing access to a resource is wrong", m[x].text_().c_str());
        }
    }

    template<typename A>
    void type_case(char const* name, Rng& rnd, int n, int nb)
    {
        std::vector<A> v;
        for(int i = 0; i < n; ++i)
            v.push_back(M<A>::random(rnd, nb));
        for(auto& a : v)
            for(auto& b : v)
                check_pair(name, a, b);
        for(int i = 0; i < n * 4; ++i)
            check_triple(name, v[rnd.upto(n)], v[rnd.upto(n)], v[rnd.upto(n)]);
    }

    template<typename A>
    void exhaustive(char const* name, std::vector<A> const& v)
    {
        for(auto& a : v)
            for(auto& b : v)
                check_pair(name, a, b);
        for(auto& a : v)
            for(auto& b : v)
                for(auto& c : v)
                    check_triple(name, a, b, c);
        hx::stat("exhaustive_values", v.size());
    }
} // namespace

void access_case(uint64_t seed)
{
    Rng rnd(seed);
    int what = rnd.upto(3);
    hx::describe(fmt_("access relations: %s", what == 2 ? "lists" : what ? "composed types" : "basic types"));
    static bool first = true;
    if(first)
    {
        first = false;
        exhaustive("IOAccess", M<IOAccess>::all(0));
        exhaustive("AreaAccess", M<AreaAccess>::all(NB));
        std::vector<Field1> f;
        for(auto& i : M<IOAccess>::all(0))
            for(auto& a : M<AreaAccess>::all(4))
                f.push_back(Field1(i, ArrayAccess<AreaAccess, 1, And_t>(std::array<AreaAccess, 1>{a})));
        exhaustive("FieldAccess<1>", f);
    }
    if(what < 2)
    {
        type_case<IOAccess>("IOAccess", rnd, 6, 4);
        type_case<AreaAccess>("AreaAccess", rnd, 12, NB);
        type_case<Field1>("FieldAccess<1>", rnd, 12, 4);
        type_case<Field2>("FieldAccess<2>", rnd, 12, 4);
        type_case<FieldAccess<3>>("FieldAccess<3>", rnd, 8, 3);
        type_case<ArrayAccess<IOAccess, 2>>("ArrayAccess<IOAccess,2>", rnd, 10, 3);
        type_case<ArrayAccess<IOAccess, 3, Or_t>>("ArrayAccess<IOAccess,3,Or>", rnd, 10, 3);
        type_case<ArrayAccess<IOAccess, 2, And_t>>("ArrayAccess<IOAccess,2,And>", rnd, 10, 3);
        type_case<ArrayAccess<AreaAccess, 2, Or_t>>("ArrayAccess<AreaAccess,2,Or>", rnd, 10, 4);
        type_case<ArrayAccess<AreaAccess, 3, And_t>>("ArrayAccess<AreaAccess,3,And>", rnd, 10, 4);
        type_case<ArrayAccess<Field1, 2, Or_t>>("ArrayAccess<FieldAccess<1>,2,Or>", rnd, 8, 3);
        type_case<CombineAccess<IOAccess, AreaAccess>>("CombineAccess<IOAccess,AreaAccess>", rnd, 12, 4);
        type_case<CombineAccess<IOAccess, AreaAccess, Or_t>>("CombineAccess<IOAccess,AreaAccess,Or>", rnd, 12, 4);
        type_case<CombineAccess<Field1, ArrayAccess<IOAccess, 2, Or_t>, Or_t>>("CombineAccess<Field,Array<IO,Or>,Or>", rnd, 8, 3);
        type_case<CombineAccess<ArrayAccess<IOAccess, 2, Or_t>, AreaAccess, And_t>>("CombineAccess<Array<IO,Or>,Area,And>", rnd, 8, 3);
        type_case<ArrayAccess<ArrayAccess<IOAccess, 2, And_t>, 2, Or_t>>("Array<Array<IO,And>,Or>", rnd, 8, 3);
    }
    else
    {
        rg::init(rnd.range(1, 3));
        {
            Resources rs;
            int nres = rnd.range(1, 3);
            for(int i = 0; i < nres; ++i)
            {
                rs.io.emplace_back();
                rs.f1.emplace_back();
                rs.f2.emplace_back();
                rs.ar.emplace_back();
            }
            std::vector<RA> v;
            for(int i = 0; i < 12; ++i)
                v.push_back(random_ra(rnd, nres));
            for(auto& a : v)
                for(auto& b : v)
                    check_access(rs, a, b);
            for(int i = 0; i < 4; ++i)
                check_lists(rs, rnd, nres);
        }
        rg::finalize();
    }
    hx::case_done(true);
}
