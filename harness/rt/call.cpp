// C24: callables and arguments reach the task unchanged.
// Callables and arguments of all kinds carry a value and are counted; the body compares what it got with what
// the caller passed, and the caller's objects are compared afterwards.
#include "rt.hpp"

#include <redGrapes/redGrapes.hpp>

#include <functional>
#include <memory>
#include <string>
#include <vector>

namespace rg = redGrapes;
using hx::found;
using hx::Rng;

namespace
{
    enum
    {
        OBJ = 1,
        FN = 2
    };

    struct Boom
    {
    };

    std::atomic<long> g_copies, g_moves;
    long g_throw_at = -1; // the n-th copy from now throws
    std::atomic<bool> g_arm;

    //! an argument: a value that is destroyed once per construction and is empty after being moved from
    struct Obj
    {
        std::string v;

        explicit Obj(std::string v) : v(std::move(v))
        {
            hx::born(this, OBJ);
        }

        Obj(Obj const& o) : v(o.v)
        {
            if(!hx::alive(&o, OBJ))
                found("LIFETIME", "a dead argument is copied");
            if(g_arm && g_throw_at >= 0 && g_throw_at-- == 0)
                throw Boom();
            ++g_copies;
            hx::born(this, OBJ);
        }

        Obj(Obj&& o) : v(std::move(o.v))
        {
            if(!hx::alive(&o, OBJ))
                found("LIFETIME", "a dead argument is moved");
            o.v = "(moved)";
            ++g_moves;
            hx::born(this, OBJ);
        }

        Obj& operator=(Obj const&) = delete;

        ~Obj()
        {
            hx::died(this, OBJ);
        }
    };

    std::string val(uint64_t k)
    {
        return "argument value that does not fit into the string object itself " + std::to_string(k);
    }

    struct Slot
    {
        uint64_t expect = 0;
        uint64_t runs = 0;
        char kind[80] = "";
    };

    Slot g_slot[512];
    int g_n;

    int new_slot(uint64_t expect, char const* kind)
    {
        int i = __atomic_fetch_add(&g_n, 1, __ATOMIC_SEQ_CST);
        if(i >= 512)
            abort();
        g_slot[i].expect = expect;
        g_slot[i].runs = 0;
        snprintf(g_slot[i].kind, sizeof g_slot[i].kind, "%s", kind);
        return i;
    }

    void ran(int slot)
    {
        if(__atomic_add_fetch(&g_slot[slot].runs, 1, __ATOMIC_SEQ_CST) > 1)
            found("CALL", "a callable is run twice (%s)", g_slot[slot].kind);
        vf::progress();
    }

    void expect(int slot, std::string const& got, char const* what)
    {
        if(got != val(g_slot[slot].expect))
            found(
                "CALL",
                "%s of the task is '%s' instead of '%s' (%s)",
                what,
                got.c_str(),
                val(g_slot[slot].expect).c_str(),
                g_slot[slot].kind);
    }

    //! copyable functor with a value
    struct Functor
    {
        std::string v;
        int slot;

        Functor(std::string v, int slot) : v(std::move(v)), slot(slot)
        {
            hx::born(this, FN);
        }

        Functor(Functor const& o) : v(o.v), slot(o.slot)
        {
            if(!hx::alive(&o, FN))
                found("LIFETIME", "a dead callable is copied");
            ++g_copies;
            hx::born(this, FN);
        }

        Functor(Functor&& o) : v(std::move(o.v)), slot(o.slot)
        {
            if(!hx::alive(&o, FN))
                found("LIFETIME", "a dead callable is moved");
            o.v = "(moved)";
            ++g_moves;
            hx::born(this, FN);
        }

        ~Functor()
        {
            hx::died(this, FN);
        }

        void check()
        {
            if(!hx::alive(this, FN))
                found("LIFETIME", "the callable is dead while it runs (%s)", g_slot[slot].kind);
            expect(slot, v, "callable");
            ran(slot);
            v = "changed by the body"; // must not reach the caller
        }

        int operator()()
        {
            check();
            return slot;
        }

        int operator()(Obj const& a)
        {
            check();
            expect(slot, a.v, "argument");
            return slot;
        }

        int operator()(Obj const& a, int b, Obj const& c)
        {
            check();
            expect(slot, a.v, "first argument");
            expect(slot, c.v, "third argument");
            if((uint64_t) b != g_slot[slot].expect)
                found("CALL", "second argument of the task is %d (%s)", b, g_slot[slot].kind);
            return slot;
        }
    };

    int plain0(int slot)
    {
        ran(slot);
        return slot;
    }

    int plain2(int slot, Obj o)
    {
        ran(slot);
        expect(slot, o.v, "argument");
        return slot;
    }

    struct Case
    {
        Rng rnd;
        std::vector<std::unique_ptr<rg::Future<int>>> futs;
        std::vector<int> fut_slot;
        uint64_t next = 1;

        explicit Case(uint64_t s) : rnd(s)
        {
        }

        void took(rg::Future<int>&& f, int slot)
        {
            if(rnd.p(50))
            {
                futs.emplace_back(new rg::Future<int>(std::move(f)));
                fut_slot.push_back(slot);
            }
            if(rnd.p(20))
                take_one();
        }

        void take_one()
        {
            if(futs.empty())
                return;
            size_t i = rnd.upto(futs.size());
            auto f = std::move(futs[i]);
            int s = fut_slot[i];
            futs.erase(futs.begin() + i);
            fut_slot.erase(fut_slot.begin() + i);
            int r = f->get();
            if(r != s)
                found("CALL", "result is %d instead of %d (%s)", r, s, g_slot[s].kind);
            hx::stat("results");
        }

        static void untouched(std::string const& v, uint64_t k, char const* what, int slot)
        {
            if(v != val(k))
                found(
                    "CALL",
                    "the caller's %s was changed to '%s' (%s)",
                    what,
                    v.c_str(),
                    g_slot[slot].kind);
        }

        void one()
        {
            uint64_t k = next++ * 7 + 1;
            hx::stat("calls");
            switch(rnd.upto(17))
            {
            case 0:
                {
                    int s = new_slot(k, "temporary functor");
                    took(rg::emplace_task(Functor(val(k), s)).submit(), s);
                    break;
                }
            case 1:
                {
                    int s = new_slot(k, "lvalue functor");
                    Functor f(val(k), s);
                    auto fu = rg::emplace_task(f).submit();
                    untouched(f.v, k, "callable", s);
                    f.v = "changed by the caller";
                    took(std::move(fu), s);
                    break;
                }
            case 2:
                {
                    int s = new_slot(k, "lvalue functor, used three times");
                    Functor f(val(k), s);
                    auto fu = rg::emplace_task(f).submit();
                    int s2 = new_slot(k, "lvalue functor, second use");
                    f.slot = s2;
                    untouched(f.v, k, "callable", s);
                    auto fu2 = rg::emplace_task(f, Obj(val(k))).submit();
                    untouched(f.v, k, "callable", s);
                    took(std::move(fu), s);
                    took(std::move(fu2), s2);
                    untouched(f.v, k, "callable", s);
                    break;
                }
            case 3:
                {
                    int s = new_slot(k, "moved functor");
                    Functor f(val(k), s);
                    auto fu = rg::emplace_task(std::move(f)).submit();
                    took(std::move(fu), s);
                    break;
                }
            case 4:
                {
                    int s = new_slot(k, "move-only lambda");
                    auto p = std::make_unique<Obj>(val(k));
                    took(
                        rg::emplace_task(
                            [p = std::move(p), s]
                            {
                                if(!p || !hx::alive(p.get(), OBJ))
                                    found("CALL", "a captured unique_ptr has lost its object");
                                expect(s, p->v, "captured object");
                                ran(s);
                                return s;
                            })
                            .submit(),
                        s);
                    break;
                }
            case 5:
                {
                    int s = new_slot(k, "function pointer");
                    took(rg::emplace_task(&plain0, (int) s).submit(), s);
                    break;
                }
            case 6:
                {
                    int s = new_slot(k, "function and temporary argument");
                    took(rg::emplace_task(plain2, (int) s, Obj(val(k))).submit(), s);
                    break;
                }
            case 7:
                {
                    int s = new_slot(k, "lvalue argument, changed afterwards");
                    Obj a(val(k));
                    auto fu = rg::emplace_task(Functor(val(k), s), a).submit();
                    untouched(a.v, k, "argument", s);
                    a.v = "changed by the caller";
                    took(std::move(fu), s);
                    break;
                }
            case 8:
                {
                    int s = new_slot(k, "const lvalue argument");
                    Obj const a(val(k));
                    auto fu = rg::emplace_task(Functor(val(k), s), a).submit();
                    took(std::move(fu), s);
                    untouched(a.v, k, "argument", s);
                    break;
                }
            case 9:
                {
                    int s = new_slot(k, "three arguments");
                    Obj a(val(k));
                    int b = k;
                    auto fu = rg::emplace_task(Functor(val(k), s), a, b, Obj(val(k))).submit();
                    b = -1;
                    untouched(a.v, k, "argument", s);
                    took(std::move(fu), s);
                    untouched(a.v, k, "argument", s);
                    break;
                }
            case 10:
                {
                    int s = new_slot(k, "lvalue argument taken by reference");
                    Obj a(val(k));
                    auto fu = rg::emplace_task(
                                  [s](Obj& x)
                                  {
                                      ran(s);
                                      expect(s, x.v, "argument");
                                      x.v = "changed by the body";
                                      return s;
                                  },
                                  a)
                                  .submit();
                    took(std::move(fu), s);
                    for(int i = 0; i < 30; ++i)
                        vf::point();
                    untouched(a.v, k, "argument", s);
                    break;
                }
            case 11:
                {
                    int s = new_slot(k, "temporary argument taken by rvalue reference");
                    auto fu = rg::emplace_task(
                                  [s](Obj&& x)
                                  {
                                      ran(s);
                                      Obj y(std::move(x));
                                      expect(s, y.v, "argument");
                                      return s;
                                  },
                                  Obj(val(k)))
                                  .submit();
                    took(std::move(fu), s);
                    break;
                }
            case 12:
                {
                    int s = new_slot(k, "std::function");
                    std::function<int(int)> f = [o = std::make_shared<Obj>(val(k)), s](int x)
                    {
                        ran(s);
                        expect(s, o->v, "captured object");
                        if((uint64_t) x != g_slot[s].expect)
                            found("CALL", "argument of a std::function is %d", x);
                        return s;
                    };
                    auto fu = rg::emplace_task(f, (int) k).submit();
                    if(!f)
                        found("CALL", "the caller's std::function is empty after creating a task from it");
                    took(std::move(fu), s);
                    break;
                }
            case 13:
                {
                    int s = new_slot(k, "std::ref");
                    auto a = std::make_shared<Obj>(val(k));
                    auto fu = rg::emplace_task(
                                  [s, a](Obj& x)
                                  {
                                      ran(s);
                                      if(&x != a.get())
                                          found("CALL", "std::ref does not refer to the caller's object");
                                      return s;
                                  },
                                  std::ref(*a))
                                  .submit();
                    took(std::move(fu), s);
                    break;
                }
            case 14:
                {
                    int s = new_slot(k, "mutable lambda as lvalue");
                    int calls = 0;
                    auto f = [s, calls, o = Obj(val(k))]() mutable
                    {
                        ran(s);
                        if(calls++ != 0)
                            found("CALL", "a mutable lambda shares its state with the caller's");
                        expect(s, o.v, "captured object");
                        o.v = "changed by the body";
                        return s;
                    };
                    auto fu = rg::emplace_task(f).submit();
                    took(std::move(fu), s);
                    break;
                }
            case 15:
                {
                    // created by the destructor of the builder; changed before that
                    int s = new_slot(k, "implicitly submitted, argument changed before the submission");
                    Obj a(val(k));
                    {
                        auto b = rg::emplace_task(Functor(val(k), s), a);
                        a.v = "changed by the caller";
                        if(rnd.p(50))
                            b.enable_stack_switching();
                    }
                    break;
                }
            case 16:
                {
                    // an argument cannot be copied: no task, nothing left behind
                    int s = new_slot(k, "throwing copy of an argument");
                    Obj a(val(k));
                    bool thrown = false;
                    g_throw_at = rnd.upto(2);
                    bool must = g_throw_at == 0;
                    g_arm = true;
                    try
                    {
                        auto fu = rg::emplace_task(Functor(val(k), s), a).submit();
                        g_arm = false;
                        took(std::move(fu), s);
                    }
                    catch(Boom&)
                    {
                        thrown = true;
                    }
                    g_arm = false;
                    if(thrown)
                    {
                        g_slot[s].runs = 1; // never runs
                        hx::stat("throwing_copies");
                    }
                    else if(must)
                        found("CALL", "the exception of a copy constructor does not reach the caller");
                    break;
                }
            }
        }

        void finish()
        {
            while(!futs.empty())
                take_one();
        }
    };
} // namespace

void call_case(uint64_t seed)
{
    Rng rnd(seed);
    int workers = rnd.range(1, 4), n = rnd.range(3, 25);
    bool nested = rnd.p(50);
    hx::describe(fmt_("call workers=%d calls=%d%s", workers, n, nested ? " also from a task" : ""));
    g_n = 0;
    mw::new_generation();
    vf::sched_begin(vf::random_cfg(seed * 31 + 17, hx::mode()));
    rg::init(workers);
    {
        Case c(rnd());
        uint64_t s2 = rnd();
        if(nested)
        {
            // throwing copies are armed globally, so only one thread creates tasks at a time
            rg::emplace_task(
                [s2, n]
                {
                    Case d(s2);
                    d.next = 1000;
                    for(int i = 0; i < n / 2; ++i)
                        d.one();
                    d.finish();
                })
                .enable_stack_switching()
                .submit()
                .get();
        }
        for(int i = 0; i < n; ++i)
        {
            c.one();
            if(rnd.p(5))
            {
                c.finish();
                rg::barrier();
                if(long l = nested ? 0 : hx::live_objects(-1))
                    found("LIFETIME", "%ld callables or arguments are alive after barrier()", l);
                hx::stat("barriers");
            }
        }
        c.finish();
        rg::barrier();
        if(long l = nested ? 0 : hx::live_objects(-1))
            found("LIFETIME", "%ld callables or arguments are alive after barrier()", l);
    }
    rg::finalize();
    // what children captured may be destroyed shortly after barrier(), but by a worker
    if(long l = hx::live_objects(-1))
        found("LIFETIME", "%ld callables or arguments are alive after finalize()", l);
    for(int i = 0; i < g_n; ++i)
        if(g_slot[i].runs != 1)
            found("CALL", "a callable ran %llu times (%s)", (unsigned long long) g_slot[i].runs, g_slot[i].kind);
    check_no_blocks();
    vf::sched_end();
    hx::stat("copies", g_copies.exchange(0));
    hx::stat("moves", g_moves.exchange(0));
    hx::reset_objects();
    hx::case_done(true);
}
