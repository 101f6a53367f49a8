// C10: accesses of children must be covered by one of the parent's, or belong to a resource constructed inside the
// parent. Every case runs in a process of its own, since a refusal may be an assertion.
#include "access_model.hpp"

#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>

#include <csignal>
#include <fcntl.h>
#include <thread>
#include <unistd.h>

namespace
{
    struct Shared
    {
        int level_ran; // levels which ran
        int probe_ran;
        int caught;
        int demote_failed;
    };

    Shared* g_sh;

    constexpr int NRES = 2; // per type and level

    struct Level
    {
        List acc; // res: index in the pool = level of construction * NRES + number
        bool demotes = false; // before it creates its child
        RA from, to;
        bool to_any = false;
        bool early = false; // its child is created by the builder's destructor
        bool stack = false;
    };

    struct Plan
    {
        int workers;
        std::vector<Level> lv; // the last one is the probe
        bool permitted;
        int path; // how the accesses are given
    };

    Plan g_p;
    Resources g_rs; // resources of all levels, appended when a level constructs them

    void construct_resources()
    {
        for(int i = 0; i < NRES; ++i)
        {
            g_rs.io.emplace_back();
            g_rs.f1.emplace_back();
            g_rs.f2.emplace_back();
            g_rs.ar.emplace_back();
        }
    }

    void run_level(int k);

    void create(int k)
    {
        Level& l = g_p.lv[k];
        auto b = rg::emplace_task([k] { run_level(k); });
        for(auto& a : l.acc.l)
            b.add_resource(make(g_rs, a));
        if(l.stack)
            b.enable_stack_switching();
        if(!l.early)
            b.submit();
    }

    void run_level(int k)
    {
        g_sh->level_ran++;
        if(k == (int) g_p.lv.size() - 1)
        {
            g_sh->probe_ran++;
            return;
        }
        construct_resources(); // local to this level
        Level& l = g_p.lv[k];
        if(l.demotes)
        {
            rg::TaskProperties::Patch::Builder b;
            b.remove_resources({make(g_rs, l.from)});
            if(l.to_any)
                b.add_resources({make(g_rs, l.to)});
            try
            {
                rg::update_properties(b);
            }
            catch(std::exception&)
            {
                g_sh->demote_failed = 1;
            }
        }
        try
        {
            create(k + 1);
        }
        catch(std::exception&)
        {
            g_sh->caught = 1;
            _exit(0);
        }
    }

    bool hollow(RA const& a)
    {
        return a.type == 1 ? M<Field1>::hollow(a.f1) : a.type == 2 ? M<Field2>::hollow(a.f2) : a.type == 3 ? M<AreaAccess>::hollow(a.ar) : false;
    }

    RA random_solid(Rng& r, int nres)
    {
        for(;;)
        {
            RA a = random_ra(r, nres);
            if(!hollow(a))
                return a;
        }
    }

    bool covered(List const& parent, RA const& a, int parent_level)
    {
        // constructed inside the parent
        if(a.res / NRES == parent_level + 1)
            return true;
        for(auto& p : parent.l)
            if(m_covers(p, a))
                return true;
        return false;
    }

    //! a random access which a child of `parent` may have
    bool valid_access(Rng& r, List const& parent, int parent_level, RA& a)
    {
        for(int i = 0; i < 40; ++i)
        {
            a = random_solid(r, NRES);
            if(r.p(40))
                a.res += NRES * (parent_level + 1);
            else if(!parent.l.empty() && r.p(90))
            {
                RA p = parent.l[r.upto(parent.l.size())];
                a.type = p.type;
                a.res = p.res;
                if(r.p(25))
                    a = p;
            }
            if(!hollow(a) && covered(parent, a, parent_level))
                return true;
        }
        return false;
    }

    std::string plan_text()
    {
        std::string s = fmt_("workers=%d ", g_p.workers);
        size_t n = g_p.lv.size();
        for(size_t i = n > 5 && !getenv("REFUSE_LOG") ? n - 5 : 0; i < n; ++i)
        {
            s += (i + 1 == n ? "probe " : fmt_("level%zu ", i)) + g_p.lv[i].acc.text_();
            if(g_p.lv[i].demotes)
                s += " demotes " + text(g_p.lv[i].from) + (g_p.lv[i].to_any ? " to " + text(g_p.lv[i].to) : " away");
            s += "; ";
        }
        return s + (g_p.permitted ? "permitted" : "to be refused");
    }

    //! @return exit status of waitpid, or -1: no end
    int run_process()
    {
        memset((void*) g_sh, 0, sizeof *g_sh);
        fflush(stdout);
        fflush(stderr);
        pid_t p = fork();
        if(p == 0)
        {
            rlimit r{0, 0};
            setrlimit(RLIMIT_CORE, &r);
            int n = open(getenv("REFUSE_LOG") ? getenv("REFUSE_LOG") : "/dev/null", O_WRONLY | O_CREAT, 0600);
            dup2(n, 2);
            dup2(n, 1);
            signal(SIGABRT, SIG_DFL);
            std::set_terminate(abort);
            alarm(60);
            rg::init(g_p.workers);
            construct_resources();
            create(0);
            rg::barrier();
            _exit(0);
        }
        int st;
        while(waitpid(p, &st, 0) < 0)
            ;
        return st;
    }
} // namespace

void refuse_case(uint64_t seed)
{
    Rng r(seed);
    if(!g_sh)
        g_sh = (Shared*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_p = Plan();
    g_p.workers = r.range(1, 3);
    bool deep = r.p(3);
    int depth = deep ? r.range(254, 260) : r.range(1, 4);
    for(int k = 0; k <= depth; ++k)
    {
        Level l;
        l.stack = r.p(30);
        l.early = r.p(50);
        int n = deep ? r.range(0, 1) : r.range(0, 4);
        for(int i = 0; i < n; ++i)
        {
            RA a;
            if(k == 0)
                l.acc.l.push_back(random_solid(r, NRES));
            else if(valid_access(r, g_p.lv[k - 1].acc, k - 1, a))
                l.acc.l.push_back(a);
        }
        // the accesses children are compared with are the ones after the demotion
        if(k < depth && !deep && !l.acc.l.empty() && r.p(35))
        {
            l.from = l.acc.l[r.upto(l.acc.l.size())];
            for(int i = 0; i < 30 && !l.to_any; ++i)
            {
                l.to = random_solid(r, NRES);
                l.to.type = l.from.type;
                l.to.res = l.from.res;
                l.to_any = !hollow(l.to) && m_covers(l.from, l.to) && !m_equal(l.from, l.to);
            }
            if(r.p(30))
                l.to_any = false;
            l.demotes = true;
        }
        g_p.lv.push_back(l);
    }
    // lists as the children see them
    std::vector<List> eff;
    for(auto& l : g_p.lv)
    {
        List e = l.acc;
        if(l.demotes)
        {
            e.l.erase(std::remove_if(e.l.begin(), e.l.end(), [&](RA const& b) { return m_equal(l.from, b); }), e.l.end());
            if(l.to_any)
                e.l.push_back(l.to);
        }
        eff.push_back(e);
    }
    // accesses of the inner levels must be valid after the demotions
    for(int k = 1; k < (int) g_p.lv.size(); ++k)
    {
        auto& v = g_p.lv[k].acc.l;
        v.erase(std::remove_if(v.begin(), v.end(), [&](RA const& a) { return !covered(eff[k - 1], a, k - 1); }), v.end());
        // what is demoted has to be still there
        auto& l = g_p.lv[k];
        if(l.demotes && std::none_of(v.begin(), v.end(), [&](RA const& b) { return m_equal(b, l.from); }))
            l.demotes = false;
        List e = l.acc;
        if(l.demotes)
        {
            e.l.erase(std::remove_if(e.l.begin(), e.l.end(), [&](RA const& b) { return m_equal(l.from, b); }), e.l.end());
            if(l.to_any)
                e.l.push_back(l.to);
        }
        eff[k] = e;
    }
    // the access in question
    RA a;
    bool want_valid = r.p(50);
    List& parent = eff[depth - 1];
    bool have = false;
    if(want_valid)
        have = valid_access(r, parent, depth - 1, a);
    else
        for(int i = 0; i < 40 && !have; ++i)
        {
            a = random_solid(r, NRES);
            // resources of any level outside of the parent
            a.res += NRES * r.upto(std::min(depth, 4));
            if(deep && r.p(50))
                a.res = a.res % NRES + NRES * r.upto(depth);
            if(!parent.l.empty() && r.p(60))
            {
                RA p = parent.l[r.upto(parent.l.size())];
                a.type = p.type;
                a.res = p.res;
            }
            have = !hollow(a) && !covered(parent, a, depth - 1);
        }
    if(have)
        g_p.lv.back().acc.l.insert(g_p.lv.back().acc.l.begin() + r.upto(g_p.lv.back().acc.l.size() + 1), a);
    g_p.permitted = true;
    for(auto& x : g_p.lv.back().acc.l)
        if(!covered(parent, x, depth - 1))
            g_p.permitted = false;
    hx::describe(plan_text());

    int st = run_process();
    bool timeout = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
    if(timeout)
    {
        st = run_process();
        timeout = WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM;
    }
    bool ok_exit = WIFEXITED(st) && WEXITSTATUS(st) == 0;
    bool aborted = WIFSIGNALED(st) && WTERMSIG(st) == SIGABRT;
    if(g_sh->demote_failed)
        found("REFUSE", "a valid demotion is refused");
    if(g_p.permitted)
    {
        hx::stat("permitted");
        if(!g_sh->probe_ran)
            found(
                "REFUSE",
                "a permitted child does not run: %d of %d levels ran, %s",
                g_sh->level_ran,
                depth + 1,
                timeout ? "no end" : g_sh->caught ? "exception" : aborted ? "abort" : ok_exit ? "end" : "crash");
        if(!ok_exit)
            found("REFUSE", "a program with permitted children %s (status %d)", timeout ? "does not end" : "fails", st);
    }
    else
    {
        hx::stat("to_refuse");
        if(g_sh->probe_ran)
            found("REFUSE", "a child with an access which its parent does not cover runs");
        if(g_sh->level_ran != depth)
            found("REFUSE", "only %d of %d permitted levels ran", g_sh->level_ran, depth);
        if(ok_exit && !g_sh->caught)
            found("REFUSE", "a child with an access which its parent does not cover is silently dropped");
        if(!ok_exit && !aborted && !timeout)
            found("REFUSE", "the refusal of a child ends in a crash (status %d)", st);
        hx::stat(aborted ? "aborted" : g_sh->caught ? "exceptions" : "other_ends");
    }
    if(deep)
        hx::stat("deep");
    hx::case_done(true);
}
