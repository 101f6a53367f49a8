// Denotational model of the access types.
// An access denotes a set of operations; two operations conflict if they touch the same cell and do not commute.
//   I/O mode:  one cell; write permits any operation, the others only themselves; read/read, add/add and mul/mul commute
//   area:      one cell per index, operations on the same index never commute
//   And:       tuples of operations, conflicting if all components conflict
//   Or:        operations tagged with the component, conflicting if the component's operations do
// Two accesses conflict if some of their operations do; one covers another if it permits a superset of operations.
#pragma once
#include "rt.hpp"

#include <redGrapes/redGrapes.hpp>
#include <redGrapes/resource/access/area.hpp>
#include <redGrapes/resource/access/combine.hpp>
#include <redGrapes/resource/access/field.hpp>
#include <redGrapes/resource/access/io.hpp>
#include <redGrapes/resource/resource.hpp>
#include <redGrapes/resource/resource_user.hpp>

#include <algorithm>
#include <set>
#include <vector>

namespace rg = redGrapes;
using hx::found;
using hx::Rng;
using rg::access::And_t;
using rg::access::AreaAccess;
using rg::access::ArrayAccess;
using rg::access::CombineAccess;
using rg::access::FieldAccess;
using rg::access::IOAccess;
using rg::access::Or_t;

namespace
{
    // all boundaries of areas come from here, so the cells are the ranges between neighbours
    constexpr size_t MAXI = std::numeric_limits<size_t>::max();
    const size_t g_bounds[] = {0, 1, 2, 7, 1000, size_t(1) << 32, MAXI - 1, MAXI};
    constexpr int NB = sizeof(g_bounds) / sizeof(g_bounds[0]);

    template<typename A>
    struct M;

    template<>
    struct M<IOAccess>
    {
        using Op = int;

        static std::vector<Op> ops(IOAccess a)
        {
            if(a.mode == IOAccess::write)
                return {0, 1, 2, 3};
            if(a.mode == IOAccess::read)
                return {1};
            if(a.mode == IOAccess::aadd)
                return {2};
            return {3};
        }

        static bool conflict(Op x, Op y)
        {
            return x != y || x == 0;
        }

        static IOAccess random(Rng& r, int)
        {
            IOAccess::Mode m[] = {IOAccess::write, IOAccess::read, IOAccess::aadd, IOAccess::amul};
            return IOAccess(m[r.upto(4)]);
        }

        static bool hollow(IOAccess const&)
        {
            return false;
        }

        static std::string text(IOAccess const& a)
        {
            return a.mode == IOAccess::write ? "W" : a.mode == IOAccess::read ? "R" : a.mode == IOAccess::aadd ? "A" : "M";
        }

        static std::vector<IOAccess> all(int)
        {
            return {IOAccess(IOAccess::write), IOAccess(IOAccess::read), IOAccess(IOAccess::aadd), IOAccess(IOAccess::amul)};
        }
    };

    template<>
    struct M<AreaAccess>
    {
        using Op = int;

        static std::vector<Op> ops(AreaAccess const& a)
        {
            std::vector<Op> v;
            for(int i = 0; i + 1 < NB; ++i)
                if(a[0] <= g_bounds[i] && a[1] >= g_bounds[i + 1])
                    v.push_back(i);
            return v;
        }

        static bool conflict(Op x, Op y)
        {
            return x == y;
        }

        static AreaAccess random(Rng& r, int nb)
        {
            if(r.p(8))
                return AreaAccess();
            int a = r.upto(nb), b = r.upto(nb);
            if(a > b)
                std::swap(a, b);
            if(a == b && !r.p(25))
                return random(r, nb);
            // few boundaries: small ones or the extreme ones
            int o = r.p(30) ? NB - nb : 0;
            return AreaAccess(std::array<size_t, 2>{g_bounds[a + o], g_bounds[b + o]});
        }

        static bool hollow(AreaAccess const& a)
        {
            return a[0] >= a[1];
        }

        static std::string text(AreaAccess const& a)
        {
            return fmt_("[%zu,%zu)", a[0], a[1]);
        }

        static std::vector<AreaAccess> all(int nb)
        {
            std::vector<AreaAccess> v;
            for(int i = 0; i < nb; ++i)
                for(int j = i; j < nb; ++j)
                    v.push_back(AreaAccess(std::array<size_t, 2>{g_bounds[i], g_bounds[j]}));
            v.push_back(AreaAccess());
            return v;
        }
    };

    template<typename A, size_t N>
    struct M<ArrayAccess<A, N, And_t>>
    {
        using T = ArrayAccess<A, N, And_t>;
        using Op = std::array<typename M<A>::Op, N>;

        static std::vector<Op> ops(T const& a)
        {
            std::vector<Op> v{Op{}};
            for(size_t i = 0; i < N; ++i)
            {
                auto c = M<A>::ops(a[i]);
                std::vector<Op> w;
                for(auto& x : v)
                    for(auto& y : c)
                    {
                        w.push_back(x);
                        w.back()[i] = y;
                    }
                v = std::move(w);
            }
            return v;
        }

        static bool conflict(Op const& x, Op const& y)
        {
            for(size_t i = 0; i < N; ++i)
                if(!M<A>::conflict(x[i], y[i]))
                    return false;
            return true;
        }

        static T random(Rng& r, int nb)
        {
            std::array<A, N> a;
            for(auto& x : a)
                x = M<A>::random(r, nb);
            return T(a);
        }

        static bool hollow(T const& a)
        {
            for(auto& x : a)
                if(M<A>::hollow(x))
                    return true;
            return false;
        }

        static std::string text(T const& a)
        {
            std::string s = "and(";
            for(auto& x : a)
                s += M<A>::text(x) + " ";
            return s + ")";
        }
    };

    template<typename A, size_t N>
    struct M<ArrayAccess<A, N, Or_t>>
    {
        using T = ArrayAccess<A, N, Or_t>;
        using Op = std::pair<size_t, typename M<A>::Op>;

        static std::vector<Op> ops(T const& a)
        {
            std::vector<Op> v;
            for(size_t i = 0; i < N; ++i)
                for(auto& y : M<A>::ops(a[i]))
                    v.push_back({i, y});
            return v;
        }

        static bool conflict(Op const& x, Op const& y)
        {
            return x.first == y.first && M<A>::conflict(x.second, y.second);
        }

        static T random(Rng& r, int nb)
        {
            std::array<A, N> a;
            for(auto& x : a)
                x = M<A>::random(r, nb);
            return T(a);
        }

        static bool hollow(T const& a)
        {
            for(auto& x : a)
                if(M<A>::hollow(x))
                    return true;
            return false;
        }

        static std::string text(T const& a)
        {
            std::string s = "or(";
            for(auto& x : a)
                s += M<A>::text(x) + " ";
            return s + ")";
        }
    };

    template<typename A, typename B>
    struct M<CombineAccess<A, B, And_t>>
    {
        using T = CombineAccess<A, B, And_t>;
        using Op = std::pair<typename M<A>::Op, typename M<B>::Op>;

        static std::vector<Op> ops(T const& a)
        {
            std::vector<Op> v;
            for(auto& x : M<A>::ops(a.first))
                for(auto& y : M<B>::ops(a.second))
                    v.push_back({x, y});
            return v;
        }

        static bool conflict(Op const& x, Op const& y)
        {
            return M<A>::conflict(x.first, y.first) && M<B>::conflict(x.second, y.second);
        }

        static T random(Rng& r, int nb)
        {
            if(r.p(5))
                return T();
            if(r.p(5))
                return T(M<A>::random(r, nb));
            return T(M<A>::random(r, nb), M<B>::random(r, nb));
        }

        //! has an empty area somewhere
        static bool hollow(T const& a)
        {
            return M<A>::hollow(a.first) || M<B>::hollow(a.second);
        }

        static std::string text(T const& a)
        {
            return "(" + M<A>::text(a.first) + " and " + M<B>::text(a.second) + ")";
        }
    };

    template<typename A, typename B>
    struct M<CombineAccess<A, B, Or_t>>
    {
        using T = CombineAccess<A, B, Or_t>;

        struct Op
        {
            int which;
            typename M<A>::Op a;
            typename M<B>::Op b;

            bool operator<(Op const& o) const
            {
                return std::tie(which, a, b) < std::tie(o.which, o.a, o.b);
            }

            bool operator==(Op const& o) const
            {
                return std::tie(which, a, b) == std::tie(o.which, o.a, o.b);
            }
        };

        static std::vector<Op> ops(T const& a)
        {
            std::vector<Op> v;
            for(auto& x : M<A>::ops(a.first))
                v.push_back({0, x, {}});
            for(auto& y : M<B>::ops(a.second))
                v.push_back({1, {}, y});
            return v;
        }

        static bool conflict(Op const& x, Op const& y)
        {
            return x.which == y.which && (x.which ? M<B>::conflict(x.b, y.b) : M<A>::conflict(x.a, y.a));
        }

        static T random(Rng& r, int nb)
        {
            return T(M<A>::random(r, nb), M<B>::random(r, nb));
        }

        //! has an empty area somewhere
        static bool hollow(T const& a)
        {
            return M<A>::hollow(a.first) || M<B>::hollow(a.second);
        }

        static std::string text(T const& a)
        {
            return "(" + M<A>::text(a.first) + " or " + M<B>::text(a.second) + ")";
        }
    };

    template<typename A>
    bool model_serial(A const& a, A const& b)
    {
        auto x = M<A>::ops(a), y = M<A>::ops(b);
        for(auto& i : x)
            for(auto& j : y)
                if(M<A>::conflict(i, j))
                    return true;
        return false;
    }

    template<typename A>
    bool model_superset(A const& a, A const& b)
    {
        auto x = M<A>::ops(a), y = M<A>::ops(b);
        std::sort(x.begin(), x.end());
        std::sort(y.begin(), y.end());
        return std::includes(x.begin(), x.end(), y.begin(), y.end());
    }

    template<typename A>
    bool none_(A const& a)
    {
        return M<A>::ops(a).empty();
    }

    using Field1 = FieldAccess<1>;
    using Field2 = FieldAccess<2>;

    //! an access to one of a few resources of different types
    struct RA
    {
        int type = 0; // 0: I/O, 1: field<1>, 2: field<2>, 3: area
        int res = 0;
        IOAccess io;
        Field1 f1;
        Field2 f2;
        AreaAccess ar;
    };

    struct Resources
    {
        std::vector<rg::Resource<IOAccess>> io;
        std::vector<rg::Resource<Field1>> f1;
        std::vector<rg::Resource<Field2>> f2;
        std::vector<rg::Resource<AreaAccess>> ar;
    };

    RA random_ra(Rng& r, int nres)
    {
        RA a;
        a.type = r.upto(4);
        a.res = r.upto(nres);
        a.io = M<IOAccess>::random(r, 4);
        a.f1 = M<Field1>::random(r, 4);
        a.f2 = M<Field2>::random(r, 3);
        a.ar = M<AreaAccess>::random(r, 4);
        return a;
    }

    rg::ResourceAccess make(Resources const& rs, RA const& a)
    {
        switch(a.type)
        {
        case 0:
            return rs.io[a.res].make_access(a.io);
        case 1:
            return rs.f1[a.res].make_access(a.f1);
        case 2:
            return rs.f2[a.res].make_access(a.f2);
        default:
            return rs.ar[a.res].make_access(a.ar);
        }
    }

    std::string text(RA const& a)
    {
        char const* n[] = {"io", "f1_", "f2_", "area"};
        return n[a.type] + std::to_string(a.res) + ":"
               + (a.type == 0 ? M<IOAccess>::text(a.io) : a.type == 1 ? M<Field1>::text(a.f1) : a.type == 2 ? M<Field2>::text(a.f2) : M<AreaAccess>::text(a.ar));
    }

    bool m_serial(RA const& a, RA const& b)
    {
        if(a.type != b.type || a.res != b.res)
            return false;
        return a.type == 0 ? model_serial(a.io, b.io) : a.type == 1 ? model_serial(a.f1, b.f1) : a.type == 2 ? model_serial(a.f2, b.f2) : model_serial(a.ar, b.ar);
    }

    bool m_empty(RA const& a)
    {
        return a.type == 0 ? false : a.type == 1 ? none_(a.f1) : a.type == 2 ? none_(a.f2) : none_(a.ar);
    }

    bool m_covers(RA const& a, RA const& b)
    {
        if(a.type != b.type || a.res != b.res)
            return false;
        return a.type == 0 ? model_superset(a.io, b.io) : a.type == 1 ? model_superset(a.f1, b.f1) : a.type == 2 ? model_superset(a.f2, b.f2) : model_superset(a.ar, b.ar);
    }

    bool m_equal(RA const& a, RA const& b)
    {
        if(a.type != b.type || a.res != b.res)
            return false;
        return a.type == 0 ? a.io.mode == b.io.mode : a.type == 1 ? M<Field1>::text(a.f1) == M<Field1>::text(b.f1) : a.type == 2 ? M<Field2>::text(a.f2) == M<Field2>::text(b.f2) : M<AreaAccess>::text(a.ar) == M<AreaAccess>::text(b.ar);
    }

    struct List
    {
        std::vector<RA> l;

        bool serial(List const& o) const
        {
            for(auto& a : l)
                for(auto& b : o.l)
                    if(m_serial(a, b))
                        return true;
            return false;
        }

        //! 1: yes, 0: no, -1: only an empty access is in question
        int covers(List const& o) const
        {
            int res = 1;
            for(auto& b : o.l)
            {
                bool f = false;
                for(auto& a : l)
                    f |= m_covers(a, b);
                if(!f && m_empty(b))
                    res = -1; // may be denied
                else if(!f)
                    return 0;
                else if(m_empty(b))
                    res = -1;
            }
            return res;
        }

        bool sync(Resources const& rs, std::shared_ptr<rg::ResourceBase> r) const
        {
            for(auto& a : l)
            {
                auto x = make(rs, a);
                if(x.get_resource() == r && x.is_synchronizing())
                    return true;
            }
            return false;
        }

        std::string text_() const
        {
            std::string s = "{";
            for(auto& a : l)
                s += text(a) + ", ";
            return s + "}";
        }
    };
} // namespace
