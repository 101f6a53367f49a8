#include "hx.hpp"

#include <atomic>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <map>
#include <algorithm>
#include <sched.h>
#include <sys/wait.h>
#include <set>
#include <time.h>
#include <unistd.h>
#include <vector>

extern "C" void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));
extern "C" void __tsan_init() __attribute__((weak));
extern "C" void AnnotateIgnoreReadsBegin(char const*, int) __attribute__((weak));
extern "C" void AnnotateIgnoreReadsEnd(char const*, int) __attribute__((weak));
extern "C" void AnnotateIgnoreWritesBegin(char const*, int) __attribute__((weak));
extern "C" void AnnotateIgnoreWritesEnd(char const*, int) __attribute__((weak));

namespace hx
{
    Args args;
    uint64_t cur_seed;

    namespace
    {
        std::atomic_flag lock_ = ATOMIC_FLAG_INIT;

        struct Lock
        {
            Lock()
            {
                // the bookkeeping is invisible to the race detector (this file is not instrumented, so its lock
                // is not known there, but the standard library's calls of memcpy and the like are)
                if(AnnotateIgnoreReadsBegin)
                {
                    AnnotateIgnoreReadsBegin(__FILE__, __LINE__);
                    AnnotateIgnoreWritesBegin(__FILE__, __LINE__);
                }
                while(lock_.test_and_set(std::memory_order_acquire))
                    sched_yield();
            }

            ~Lock()
            {
                lock_.clear(std::memory_order_release);
                if(AnnotateIgnoreReadsBegin)
                {
                    AnnotateIgnoreReadsEnd(__FILE__, __LINE__);
                    AnnotateIgnoreWritesEnd(__FILE__, __LINE__);
                }
            }
        };

        std::map<std::string, uint64_t>& st()
        {
            static auto* m = new std::map<std::string, uint64_t>;
            return *m;
        }

        std::string& desc()
        {
            static auto* s = new std::string;
            return *s;
        }

        std::string& sample()
        {
            static auto* s = new std::string;
            return *s;
        }

        std::set<uint64_t>& seen()
        {
            static auto* s = new std::set<uint64_t>;
            return *s;
        }

        std::map<void const*, int>& objs()
        {
            static auto* m = new std::map<void const*, int>;
            return *m;
        }

        struct Mem
        {
            size_t n;
            bool live;
        };

        std::map<void*, Mem>& mems()
        {
            static auto* m = new std::map<void*, Mem>;
            return *m;
        }

        volatile int reported;
        vf::SchedStats children; // of processes that ended

        void print_stats()
        {
            auto& v = vf::sched_stats();
            printf("STATS {");
            for(auto& s : st())
                printf("\"%s\":%llu,", s.first.c_str(), (unsigned long long) s.second);
#define S(x) printf("\"%s\":%llu,", #x, (unsigned long long) (v.x + children.x));
            S(points)
            S(switches)
            S(preemptions)
            S(delays)
            S(threads)
            S(signatures)
            S(pair_bits)
            S(guards_hit)
            S(guards_total)
#undef S
            printf("\"max_end\":0}\n");
        }

        [[noreturn]] void report(char const* cls, char const* text)
        {
            if(__atomic_exchange_n(&reported, 1, __ATOMIC_SEQ_CST))
                for(;;)
                    pause();
            printf(
                "FOUND %s: %s\n  --what %s --mode %s --seed %llu\n%s\n%s\n",
                cls,
                text,
                args.what.c_str(),
                args.mode.c_str(),
                (unsigned long long) cur_seed,
                desc().c_str(),
                vf::dump_threads().c_str());
            print_stats();
            fflush(stdout);
            _exit(1);
        }

        void on_hang(char const* kind)
        {
            report(kind, "no thread can continue, or no progress is made, although the run is not finished");
        }

        void on_term()
        {
            char const* t = "std::terminate called";
            static char b[300];
            if(auto e = std::current_exception())
                try
                {
                    std::rethrow_exception(e);
                }
                catch(std::exception& x)
                {
                    snprintf(b, sizeof b, "std::terminate called after exception: %s", x.what());
                    t = b;
                }
                catch(...)
                {
                }
            report("ABORT", t);
        }

        void on_signal(int s)
        {
            char b[60];
            snprintf(b, sizeof b, "signal %d", s);
            report("ABORT", b);
        }

        void on_alarm(int)
        {
            printf("INCONCLUSIVE watchdog --what %s --seed %llu\n%s\n", args.what.c_str(), (unsigned long long) cur_seed,
                   vf::dump_threads().c_str());
            fflush(stdout);
            _exit(4);
        }
    } // namespace

    void init(int argc, char** argv)
    {
        vf::fix_addresses(argv);
        for(int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if(a == "--what")
                args.what = next();
            else if(a == "--mode")
                args.mode = next();
            else if(a == "--seed")
                args.seed = strtoull(next().c_str(), nullptr, 0);
            else if(a == "--count")
                args.count = strtoull(next().c_str(), nullptr, 0);
            else if(a == "--budget")
                args.budget = atoi(next().c_str());
            else if(a == "--watchdog")
                args.watchdog = atoi(next().c_str());
        }
        vf::on_hang = on_hang;
        std::set_terminate(on_term);
        signal(SIGALRM, on_alarm);
        signal(SIGABRT, on_signal);
        if(!__asan_poison_memory_region && !__tsan_init)
            for(int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL})
                signal(s, on_signal);
    }

    vf::Mode mode()
    {
        return args.mode == "ctrl" ? vf::Mode::CTRL : args.mode == "delay" ? vf::Mode::DELAY : vf::Mode::OFF;
    }

    void found(char const* cls, char const* fmt, ...)
    {
        static char b[1000];
        va_list l;
        va_start(l, fmt);
        vsnprintf(b, sizeof b, fmt, l);
        va_end(l);
        report(cls, b);
    }

    void inconclusive(char const* why)
    {
        printf("INCONCLUSIVE %s\n", why);
        print_stats();
        fflush(stdout);
        _exit(4);
    }

    void stat(char const* name, uint64_t add)
    {
        Lock l;
        st()[name] += add;
    }

    void stat_max(char const* name, uint64_t v)
    {
        Lock l;
        auto& x = st()[name];
        if(v > x)
            x = v;
    }

    void describe(std::string const& s)
    {
        desc() = s;
        if(sample().empty())
            sample() = s;
    }

    void case_done(bool nontrivial)
    {
        uint64_t h = 1469598103934665603ull;
        for(char c : desc())
            h = (h ^ (unsigned char) c) * 1099511628211ull;
        h = (h ^ cur_seed) * 1099511628211ull; // scripts and schedules are derived from the seed
        bool fresh = seen().insert(h).second;
        Lock l;
        st()["cases"]++;
        if(fresh && nontrivial)
            st()["nontrivial"]++;
    }

    void loop(void (*f)(uint64_t))
    {
        time_t t0 = time(nullptr);
        for(uint64_t i = 0; i < args.count; ++i)
        {
            if(args.budget && time(nullptr) - t0 >= (time_t) args.budget)
                break;
            cur_seed = args.seed + i;
            alarm(args.watchdog);
            f(cur_seed);
        }
        alarm(0);
    }

    void in_process(void (*f)(uint64_t), uint64_t seed)
    {
        int p[2];
        if(pipe(p))
            abort();
        fflush(stdout);
        fflush(stderr);
        pid_t pid = fork();
        if(pid == 0)
        {
            close(p[0]);
            st().clear();
            alarm(args.watchdog);
            f(seed);
            alarm(0);
            vf::SchedStats const& v = vf::sched_stats();
            std::string s((char const*) &v, sizeof v);
            for(auto& x : st())
                s += x.first + " " + std::to_string(x.second) + "\n";
            for(size_t o = 0; o < s.size();)
            {
                ssize_t n = write(p[1], s.data() + o, s.size() - o);
                if(n <= 0)
                    _exit(3);
                o += n;
            }
            fflush(stdout);
            _exit(0);
        }
        close(p[1]);
        std::string s;
        char buf[4096];
        for(ssize_t n; (n = read(p[0], buf, sizeof buf)) > 0;)
            s.append(buf, n);
        close(p[0]);
        int rc;
        while(waitpid(pid, &rc, 0) < 0)
            ;
        if(WIFSIGNALED(rc))
            found("ABORT", "signal %d", WTERMSIG(rc));
        if(WEXITSTATUS(rc))
            _exit(WEXITSTATUS(rc));
        vf::SchedStats v;
        if(s.size() < sizeof v)
            found("ABORT", "the process ends without a result");
        memcpy((void*) &v, s.data(), sizeof v);
        children.points += v.points;
        children.switches += v.switches;
        children.preemptions += v.preemptions;
        children.delays += v.delays;
        children.threads += v.threads;
        children.signatures += v.signatures; // each process has another seed
        children.pair_bits = std::max(children.pair_bits, v.pair_bits);
        children.guards_hit = std::max(children.guards_hit, v.guards_hit);
        for(size_t o = sizeof v; o < s.size();)
        {
            size_t sp = s.find(' ', o), e = s.find('\n', o);
            std::string name = s.substr(o, sp - o);
            uint64_t x = strtoull(s.c_str() + sp + 1, nullptr, 10);
            if(name.compare(0, 4, "max_") == 0)
                stat_max(name.c_str(), x);
            else
                stat(name.c_str(), x);
            o = e + 1;
        }
    }

    void finish()
    {
        std::string d = sample();
        for(char& c : d)
            if(c == '\n')
                c = ';';
        if(d.size() > 700)
            d = d.substr(0, 700) + "...";
        printf("SAMPLE --what %s --mode %s --seed %llu: %s\n", args.what.c_str(), args.mode.c_str(),
               (unsigned long long) args.seed, d.c_str());
        print_stats();
        printf("DONE\n");
        fflush(stdout);
        _exit(0);
    }

    static uint64_t clock_ = 0;

    uint64_t tick()
    {
        return __atomic_add_fetch(&clock_, 1, __ATOMIC_SEQ_CST);
    }

    void born(void const* p, int id)
    {
        bool bad;
        {
            Lock l;
            bad = !objs().emplace(p, id).second;
        }
        if(bad)
            found("LIFETIME", "object %d is constructed over a live object at %p", id, p);
    }

    void died(void const* p, int id)
    {
        bool bad = false;
        {
            Lock l;
            auto it = objs().find(p);
            if(it == objs().end() || it->second != id)
                bad = true;
            else
                objs().erase(it);
        }
        if(bad)
            found("LIFETIME", "object at %p (%d) is destroyed, which is not alive", p, id);
    }

    bool alive(void const* p, int id)
    {
        Lock l;
        auto it = objs().find(p);
        return it != objs().end() && it->second == id;
    }

    long live_objects(int id)
    {
        Lock l;
        if(id < 0)
            return objs().size();
        long n = 0;
        for(auto& o : objs())
            n += o.second == id;
        return n;
    }

    void reset_objects()
    {
        Lock l;
        objs().clear();
    }

    void* mem_alloc(size_t n)
    {
        void* p = nullptr;
        if(posix_memalign(&p, 16, n))
            return nullptr;
        memset(p, 0xA5, n);
        Lock l;
        mems()[p] = Mem{n, true};
        return p;
    }

    void mem_free(void* p)
    {
        char const* bad = nullptr;
        size_t n = 0;
        {
            Lock l;
            auto it = mems().find(p);
            if(it == mems().end())
                bad = "memory is given back which was not allocated";
            else if(!it->second.live)
                bad = "memory is given back twice";
            else
            {
                it->second.live = false;
                n = it->second.n;
            }
        }
        if(bad)
            found("MEMORY", "%s (%p)", bad, p);
        memset(p, 0xDD, n);
        if(__asan_poison_memory_region)
            __asan_poison_memory_region(p, n);
    }

    long mem_live()
    {
        Lock l;
        long n = 0;
        for(auto& m : mems())
            n += m.second.live;
        return n;
    }

    void mem_reset()
    {
        Lock l;
        for(auto& m : mems())
        {
            if(__asan_unpoison_memory_region)
                __asan_unpoison_memory_region(m.first, m.second.n);
            free(m.first);
        }
        mems().clear();
    }
} // namespace hx
