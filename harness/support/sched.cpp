// Schedule control: compiled WITHOUT any instrumentation (no sanitizer, no coverage).
//
// The code under test is compiled with -fsanitize-coverage=trace-pc-guard,pc-table, so every edge of
// its control flow calls __sanitizer_cov_trace_pc_guard.  The points that lie in functions of the code
// under test or in std::atomic operations are *schedule points*.  In CTRL mode exactly one thread holds
// the token; at schedule points and at intercepted blocking calls (mutexes, condition variables,
// rwlocks, join, sleeps) the token may be handed to another thread as decided by a seeded strategy.
// In this mode "no thread can run" is detected exactly, so hangs and quiescence need no clock.
// Hand-over uses raw futex calls, which ThreadSanitizer does not see: it adds no happens-before edges.
#include "sched.hpp"

#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <link.h>
#include <linux/futex.h>
#include <pthread.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <vector>

extern "C"
{
#define WEAK __attribute__((weak))
    int __interceptor_pthread_create(pthread_t*, pthread_attr_t const*, void* (*) (void*), void*) WEAK;
    int __interceptor_pthread_join(pthread_t, void**) WEAK;
    int __interceptor_pthread_mutex_trylock(pthread_mutex_t*) WEAK;
    int __interceptor_pthread_mutex_lock(pthread_mutex_t*) WEAK;
    int __interceptor_pthread_mutex_unlock(pthread_mutex_t*) WEAK;
    int __interceptor_pthread_cond_wait(pthread_cond_t*, pthread_mutex_t*) WEAK;
    int __interceptor_pthread_cond_signal(pthread_cond_t*) WEAK;
    int __interceptor_pthread_cond_broadcast(pthread_cond_t*) WEAK;
    int __interceptor_pthread_cond_clockwait(pthread_cond_t*, pthread_mutex_t*, clockid_t, timespec const*) WEAK;
    int __interceptor_pthread_cond_timedwait(pthread_cond_t*, pthread_mutex_t*, timespec const*) WEAK;
    int __interceptor_pthread_rwlock_rdlock(pthread_rwlock_t*) WEAK;
    int __interceptor_pthread_rwlock_wrlock(pthread_rwlock_t*) WEAK;
    int __interceptor_pthread_rwlock_tryrdlock(pthread_rwlock_t*) WEAK;
    int __interceptor_pthread_rwlock_trywrlock(pthread_rwlock_t*) WEAK;
    int __interceptor_pthread_rwlock_unlock(pthread_rwlock_t*) WEAK;
    int __interceptor_nanosleep(timespec const*, timespec*) WEAK;
    int __interceptor_clock_nanosleep(clockid_t, int, timespec const*, timespec*) WEAK;
    int __interceptor___cxa_guard_acquire(void*) WEAK;
    void __interceptor___cxa_guard_release(void*) WEAK;
    void __interceptor___cxa_guard_abort(void*) WEAK;
}

namespace vf
{
    namespace
    {
        constexpr int MAXT = 512;

        enum State : int
        {
            UNUSED = 0,
            RUNNABLE,
            BLOCKED,
            QUIESCE, // waits until nobody else can run
            FINISHED
        };

        struct Thread
        {
            volatile int state = UNUSED;
            void const* obj = nullptr; // what it is blocked on
            char const* why = "";
            int word = 0; // futex: 1 = has the token
            int64_t prio = 0;
            pthread_t handle{};
            bool yielded = false; // asked to be descheduled
            uint32_t last_guard = 0;
            uint64_t run_points = 0; // points since it got the token
            void* (*fn)(void*) = nullptr;
            void* arg = nullptr;
            uint64_t rng = 1;
            unsigned epoch = 0;
        };

        Thread T[MAXT];
        int nthreads = 0;
        int current = -1;
        volatile int g_mode = 0; // (int)Mode
        unsigned g_epoch = 0;
        SchedCfg cfg;
        SchedStats stats;

        uint64_t rng_state = 1;
        int64_t budget = 0; // points until the next decision
        uint64_t steps = 0; // points in this run
        uint64_t steps_progress = 0; // step of the last progress()
        std::vector<uint64_t> change_points;
        size_t next_change = 0;
        int64_t low_prio = 0;
        uint64_t sig = 0;
        uint64_t hang_spin = 0;
        bool burst_on = false;

        thread_local int self = -1;
        thread_local unsigned self_epoch = 0;
        thread_local int nopreempt = 0;
        thread_local uint64_t d_rng = 0;
        thread_local int64_t d_budget = 0;
        thread_local bool in_hook = false;

        // ---- guards
        uint8_t* guard_class = nullptr; // by guard index
        uint8_t* guard_hit = nullptr;
        uint32_t n_guards = 0;
        uint8_t* pair_map = nullptr;
        std::vector<uint64_t>* sig_set = nullptr;

        inline uint64_t splitmix(uint64_t& s)
        {
            uint64_t z = (s += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }

        inline uint64_t rnd(uint64_t n)
        {
            return n ? splitmix(rng_state) % n : 0;
        }

        long futex(int* addr, int op, int val)
        {
            return syscall(SYS_futex, addr, op, val, nullptr, nullptr, 0);
        }

        void wait_token(int me)
        {
            // short spin, then sleep
            for(int i = 0; i < 200; ++i)
            {
                if(__atomic_load_n(&T[me].word, __ATOMIC_ACQUIRE))
                    break;
                __builtin_ia32_pause();
            }
            while(!__atomic_load_n(&T[me].word, __ATOMIC_ACQUIRE))
                futex(&T[me].word, FUTEX_WAIT_PRIVATE, 0);
            __atomic_store_n(&T[me].word, 0, __ATOMIC_RELAXED);
        }

        void give_token(int to)
        {
            current = to;
            T[to].run_points = 0;
            __atomic_store_n(&T[to].word, 1, __ATOMIC_RELEASE);
            futex(&T[to].word, FUTEX_WAKE_PRIVATE, 1);
        }

        void new_budget()
        {
            switch(cfg.strategy)
            {
            case Strategy::RANDOM:
                {
                    // geometric-like with mean gap
                    uint64_t g = cfg.gap ? cfg.gap : 1;
                    budget = 1 + (int64_t) rnd(2 * g);
                    break;
                }
            case Strategy::PCT:
                {
                    uint64_t nxt = next_change < change_points.size() ? change_points[next_change] : UINT64_MAX;
                    uint64_t lim = steps + 1500 + rnd(1500); // fairness: spinning threads lose their priority
                    uint64_t to = nxt < lim ? nxt : lim;
                    budget = to > steps ? (int64_t) (to - steps) : 1;
                    break;
                }
            case Strategy::BURST:
                if(burst_on)
                    budget = 1 + rnd(3);
                else
                    budget = 1 + rnd(2 * (uint64_t) cfg.gap);
                break;
            }
        }

        // choose a runnable thread other than `me` if possible (when must_leave) ; -1 if none
        int pick(int me, bool must_leave)
        {
            if(cfg.strategy == Strategy::PCT)
            {
                int best = -1;
                for(int i = 0; i < nthreads; ++i)
                    if(T[i].state == RUNNABLE && !(must_leave && i == me))
                        if(best < 0 || T[i].prio > T[best].prio)
                            best = i;
                return best;
            }
            int cand[MAXT];
            int n = 0;
            for(int i = 0; i < nthreads; ++i)
                if(T[i].state == RUNNABLE && i != me)
                    cand[n++] = i;
            if(n == 0)
                return (!must_leave && me >= 0 && T[me].state == RUNNABLE) ? me : -1;
            return cand[rnd(n)];
        }

        void switch_to(int me, int to, bool preempt)
        {
            stats.switches++;
            if(preempt)
                stats.preemptions++;
            uint32_t a = T[me].last_guard, b = T[to].last_guard;
            sig = (sig ^ (a * 0x9e3779b97f4a7c15ull + to)) * 0x100000001b3ull + b;
            if(pair_map)
            {
                uint64_t h = ((uint64_t) a * 0x9e3779b97f4a7c15ull) ^ ((uint64_t) b * 0xc2b2ae3d27d4eb4full);
                h = (h >> 20) & 0xfffff;
                if(!pair_map[h])
                {
                    pair_map[h] = 1;
                    stats.pair_bits++;
                }
            }
            give_token(to);
        }

        // current thread cannot continue: hand over, wait for the token.  finishing: do not wait
        void leave(int me, bool finishing)
        {
            while(true)
            {
                int to = pick(me, true);
                if(to < 0)
                {
                    // a QUIESCE thread may run now
                    int q[MAXT];
                    int n = 0;
                    for(int i = 0; i < nthreads; ++i)
                        if(T[i].state == QUIESCE)
                            q[n++] = i;
                    if(n)
                    {
                        stats.deadlock_checks++;
                        to = q[rnd(n)];
                        T[to].state = RUNNABLE;
                        if(to == me)
                            return;
                    }
                    else if(T[me].state == RUNNABLE)
                        return;
                    else if(finishing)
                    {
                        // the last controlled thread ends while nobody is runnable
                        bool any = false;
                        for(int i = 0; i < nthreads; ++i)
                            if(T[i].state == BLOCKED)
                                any = true;
                        if(any)
                            on_hang("DEADLOCK");
                        return;
                    }
                    else
                        on_hang("DEADLOCK");
                }
                switch_to(me, to, false);
                if(!finishing)
                    wait_token(me);
                return;
            }
        }

        // schedule decision at a point
        void decide(int me, bool yielding)
        {
            if(steps - steps_progress > cfg.livelock_limit)
                on_hang("LIVELOCK");
            int to;
            switch(cfg.strategy)
            {
            case Strategy::PCT:
                if(next_change < change_points.size() && steps >= change_points[next_change])
                {
                    T[me].prio = --low_prio;
                    ++next_change;
                }
                else if(yielding || T[me].run_points > 1500)
                {
                    T[me].prio = --low_prio;
                    T[me].run_points = 0;
                }
                to = pick(me, false);
                break;
            case Strategy::BURST:
                if(rnd(40) == 0)
                    burst_on = !burst_on;
                to = pick(me, false);
                break;
            default:
                to = pick(me, false);
            }
            new_budget();
            if(to >= 0 && to != me)
            {
                switch_to(me, to, true);
                wait_token(me);
                new_budget();
            }
        }

        inline bool controlled()
        {
            return g_mode == (int) Mode::CTRL && self >= 0 && self_epoch == g_epoch;
        }

        inline void do_point(uint32_t guard)
        {
            int me = self;
            T[me].last_guard = guard;
            T[me].run_points++;
            stats.points++;
            steps++;
            if(--budget > 0 || nopreempt)
                return;
            decide(me, false);
        }

        void do_yield()
        {
            if(nopreempt)
                return;
            int me = self;
            stats.points++;
            steps++;
            T[me].run_points++;
            decide(me, true);
        }

        void wake_obj(void const* obj, bool one = false)
        {
            if(one)
            {
                int cand[MAXT];
                int n = 0;
                for(int i = 0; i < nthreads; ++i)
                    if(T[i].state == BLOCKED && T[i].obj == obj)
                        cand[n++] = i;
                if(n)
                {
                    int k = cand[rnd(n)];
                    T[k].state = RUNNABLE;
                    T[k].obj = nullptr;
                }
                return;
            }
            for(int i = 0; i < nthreads; ++i)
                if(T[i].state == BLOCKED && T[i].obj == obj)
                {
                    T[i].state = RUNNABLE;
                    T[i].obj = nullptr;
                }
        }

        void block_on(void const* obj, char const* why)
        {
            int me = self;
            T[me].state = BLOCKED;
            T[me].obj = obj;
            T[me].why = why;
            leave(me, false);
            T[me].why = "";
        }

        // ---- delay mode
        void do_delay_point()
        {
            if(in_hook)
                return;
            if(--d_budget > 0)
                return;
            in_hook = true;
            if(!d_rng)
                d_rng = cfg.seed * 0x9e3779b97f4a7c15ull + (uint64_t) syscall(SYS_gettid) * 0xd1342543de82ef95ull;
            d_budget = 1 + splitmix(d_rng) % (2 * (uint64_t) (cfg.delay_every ? cfg.delay_every : 1));
            __atomic_fetch_add(&stats.delays, 1, __ATOMIC_RELAXED);
            uint64_t k = splitmix(d_rng) % 8;
            if(k < 4)
            {
                uint64_t n = splitmix(d_rng) % 400;
                for(uint64_t i = 0; i < n; ++i)
                    __builtin_ia32_pause();
            }
            else if(k < 6)
                syscall(SYS_sched_yield);
            else
            {
                timespec ts{0, (long) (1000 * (1 + splitmix(d_rng) % (cfg.delay_max_us ? cfg.delay_max_us : 1)))};
                syscall(SYS_nanosleep, &ts, nullptr);
            }
            in_hook = false;
        }

        pthread_key_t exit_key;
        bool key_made = false;

        void on_thread_exit(void*)
        {
            if(!controlled())
                return;
            int me = self;
            T[me].state = FINISHED;
            wake_obj(&T[me]);
            self = -1;
            leave(me, true);
        }

        void* trampoline(void* p)
        {
            Thread* t = (Thread*) p;
            int me = (int) (t - T);
            self = me;
            self_epoch = t->epoch;
            pthread_setspecific(exit_key, t);
            wait_token(me);
            return t->fn(t->arg);
        }

        template<typename F>
        F real(F interceptor, char const* name, F& cache)
        {
            if(interceptor)
                return interceptor;
            F c = __atomic_load_n(&cache, __ATOMIC_RELAXED);
            if(!c)
            {
                c = (F) dlsym(RTLD_NEXT, name);
                __atomic_store_n(&cache, c, __ATOMIC_RELAXED);
            }
            return c;
        }
#define REAL(name)                                                                                                    \
    ([]                                                                                                               \
     {                                                                                                                \
         static decltype(&name) cache = nullptr;                                                                      \
         return real<decltype(&name)>((decltype(&name)) &__interceptor_##name, #name, cache);                         \
     }())

        void default_hang(char const* kind)
        {
            fprintf(stderr, "%s\n%s", kind, dump_threads().c_str());
            _exit(41);
        }

        // ---- classification of guards
        struct Sym
        {
            uintptr_t addr;
            char const* name;
        };

        bool starts(char const* s, char const* p)
        {
            return strncmp(s, p, strlen(p)) == 0;
        }

        uint8_t classify(char const* n)
        {
            if(strstr(n, "moodycamel"))
                return 0;
            if(strstr(n, "spdlog") || strstr(n, "_ZN3fmt"))
                return 0;
            if(starts(n, "_ZN9redGrapes") || starts(n, "_ZNK9redGrapes") || starts(n, "_ZZN9redGrapes")
               || starts(n, "_ZNR9redGrapes"))
                return 1;
            if(starts(n, "_ZNSt6atomic") || starts(n, "_ZNKSt6atomic") || starts(n, "_ZNVSt6atomic")
               || starts(n, "_ZNSt13__atomic_base") || starts(n, "_ZNKSt13__atomic_base"))
                return 1;
            // standard library templates over redGrapes types: at -O1 the body of e.g. SpinLock::lock() ends up inside
            // std::unique_lock<redGrapes::SpinLock>::lock()
            if(starts(n, "_ZNSt") && strstr(n, "9redGrapes")
               && (strstr(n, "unique_lock") || strstr(n, "lock_guard") || strstr(n, "scoped_lock")))
                return 1;
            return 0;
        }

        int phdr_cb(dl_phdr_info* info, size_t, void* data)
        {
            *(uintptr_t*) data = info->dlpi_addr;
            return 1; // first entry is the main program
        }

        void classify_all(uintptr_t const* pcs, size_t n)
        {
            uintptr_t base = 0;
            dl_iterate_phdr(phdr_cb, &base);
            int fd = open("/proc/self/exe", O_RDONLY);
            if(fd < 0)
                return;
            struct stat st;
            fstat(fd, &st);
            char* m = (char*) mmap(nullptr, st.st_size, PROT_READ, MAP_PRIVATE, fd, 0);
            close(fd);
            if(m == MAP_FAILED)
                return;
            Elf64_Ehdr* eh = (Elf64_Ehdr*) m;
            Elf64_Shdr* sh = (Elf64_Shdr*) (m + eh->e_shoff);
            std::vector<Sym> syms;
            for(int i = 0; i < eh->e_shnum; ++i)
                if(sh[i].sh_type == SHT_SYMTAB)
                {
                    Elf64_Sym* s = (Elf64_Sym*) (m + sh[i].sh_offset);
                    size_t k = sh[i].sh_size / sizeof(Elf64_Sym);
                    char const* str = m + sh[sh[i].sh_link].sh_offset;
                    for(size_t j = 0; j < k; ++j)
                        if(ELF64_ST_TYPE(s[j].st_info) == STT_FUNC && s[j].st_value)
                            syms.push_back({base + s[j].st_value, str + s[j].st_name});
                }
            std::sort(syms.begin(), syms.end(), [](Sym const& a, Sym const& b) { return a.addr < b.addr; });
            for(size_t i = 0; i < n; ++i)
            {
                uintptr_t pc = pcs[2 * i];
                auto it = std::upper_bound(
                    syms.begin(),
                    syms.end(),
                    pc,
                    [](uintptr_t p, Sym const& s) { return p < s.addr; });
                uint8_t c = 0;
                if(it != syms.begin())
                    c = classify((it - 1)->name);
                guard_class[i + 1] = c;
                if(c)
                    stats.guards_total++;
            }
            munmap(m, st.st_size);
        }
    } // namespace

    void (*on_hang)(char const*) = default_hang;

    SchedCfg random_cfg(uint64_t seed, Mode mode)
    {
        SchedCfg c;
        uint64_t s = seed ^ 0x5bd1e995ull;
        splitmix(s);
        c.mode = mode;
        c.seed = seed;
        static unsigned const gaps[] = {1, 2, 4, 8, 16, 32, 64, 128, 400};
        switch(splitmix(s) % 5)
        {
        case 0:
        case 1:
            c.strategy = Strategy::RANDOM;
            c.gap = gaps[splitmix(s) % 9];
            break;
        case 2:
        case 3:
            c.strategy = Strategy::PCT;
            c.depth = 1 + splitmix(s) % 8;
            static uint64_t const lens[] = {1000, 4000, 16000, 60000};
            c.length = lens[splitmix(s) % 4];
            break;
        case 4:
            c.strategy = Strategy::BURST;
            c.gap = 100 + splitmix(s) % 400;
            break;
        }
        static unsigned const every[] = {20, 60, 200, 1000, 5000};
        c.delay_every = every[splitmix(s) % 5];
        static unsigned const mx[] = {5, 50, 300};
        c.delay_max_us = mx[splitmix(s) % 3];
        return c;
    }

    std::string describe(SchedCfg const& c)
    {
        char b[200];
        if(c.mode == Mode::CTRL)
            snprintf(
                b,
                sizeof b,
                "ctrl %s gap=%u depth=%u length=%llu seed=%llu",
                c.strategy == Strategy::RANDOM ? "random" : (c.strategy == Strategy::PCT ? "pct" : "burst"),
                c.gap,
                c.depth,
                (unsigned long long) c.length,
                (unsigned long long) c.seed);
        else if(c.mode == Mode::DELAY)
            snprintf(
                b,
                sizeof b,
                "delay every=%u max=%uus seed=%llu",
                c.delay_every,
                c.delay_max_us,
                (unsigned long long) c.seed);
        else
            snprintf(b, sizeof b, "off");
        return b;
    }

    void fix_addresses(char** argv)
    {
        if(getenv("VF_FIXED"))
            return;
        setenv("VF_FIXED", "1", 1);
        int p = personality(0xffffffff);
        if(p < 0 || (p & ADDR_NO_RANDOMIZE) || personality(p | ADDR_NO_RANDOMIZE) < 0)
            return;
        execv("/proc/self/exe", argv);
    }

    void sched_begin(SchedCfg const& c)
    {
        if(!key_made)
        {
            pthread_key_create(&exit_key, on_thread_exit);
            key_made = true;
        }
        if(!pair_map)
            pair_map = (uint8_t*) calloc(1 << 20, 1);
        if(!sig_set)
            sig_set = new std::vector<uint64_t>();
        cfg = c;
        rng_state = c.seed * 0x2545F4914F6CDD1Dull + 77;
        steps = steps_progress = 0;
        sig = 0;
        low_prio = 0;
        burst_on = false;
        stats.runs++;
        g_epoch++;
        nthreads = 0;
        if(c.mode == Mode::CTRL)
        {
            change_points.clear();
            next_change = 0;
            if(c.strategy == Strategy::PCT)
            {
                for(unsigned i = 0; i < c.depth; ++i)
                    change_points.push_back(1 + rnd(c.length));
                std::sort(change_points.begin(), change_points.end());
            }
            int me = nthreads++;
            T[me] = Thread();
            T[me].state = RUNNABLE;
            T[me].handle = pthread_self();
            T[me].prio = 1 + rnd(1000000);
            T[me].epoch = g_epoch;
            self = me;
            self_epoch = g_epoch;
            current = me;
            stats.threads++;
            new_budget();
        }
        __atomic_store_n(&g_mode, (int) c.mode, __ATOMIC_SEQ_CST);
    }

    void sched_end()
    {
        if(controlled())
        {
            // let every other thread that is not finished be uncontrolled: the harness must have joined them
            if(std::find(sig_set->begin(), sig_set->end(), sig) == sig_set->end())
            {
                if(sig_set->size() < 20000)
                    sig_set->push_back(sig);
                stats.signatures++;
            }
        }
        __atomic_store_n(&g_mode, 0, __ATOMIC_SEQ_CST);
        g_epoch++;
        self = -1;
    }

    SchedStats const& sched_stats()
    {
        stats.guards_hit = 0;
        for(uint32_t i = 1; i <= n_guards; ++i)
            if(guard_hit && guard_hit[i] && guard_class[i])
                stats.guards_hit++;
        return stats;
    }

    void point()
    {
        if(controlled())
            do_point(0xffffffffu);
        else if(g_mode == (int) Mode::DELAY)
            do_delay_point();
    }

    void progress()
    {
        steps_progress = steps;
    }

    bool wait_quiescent()
    {
        if(!controlled())
            return false;
        int me = self;
        T[me].state = QUIESCE;
        T[me].why = "wait_quiescent";
        leave(me, false);
        T[me].state = RUNNABLE;
        T[me].why = "";
        return true;
    }

    std::string dump_threads()
    {
        std::string r;
        char b[256];
        for(int i = 0; i < nthreads; ++i)
        {
            snprintf(
                b,
                sizeof b,
                "  thread %d: %s %s %p%s\n",
                i,
                T[i].state == RUNNABLE   ? "runnable"
                : T[i].state == BLOCKED  ? "blocked in"
                : T[i].state == FINISHED ? "finished"
                                         : "waits for quiescence",
                T[i].why,
                T[i].obj,
                i == current ? " (current)" : "");
            r += b;
        }
        return r;
    }

    unsigned live_threads()
    {
        unsigned n = 0;
        for(int i = 0; i < nthreads; ++i)
            if(T[i].state != FINISHED && T[i].state != UNUSED)
                ++n;
        return n;
    }
} // namespace vf

using namespace vf;

extern "C"
{
    void __sanitizer_cov_trace_pc_guard_init(uint32_t* start, uint32_t* stop)
    {
        if(start == stop || *start)
            return;
        uint32_t n = (uint32_t) (stop - start);
        if(!guard_class)
        {
            guard_class = (uint8_t*) calloc(n + 1, 1);
            guard_hit = (uint8_t*) calloc(n + 1, 1);
            n_guards = n;
        }
        for(uint32_t i = 0; i < n; ++i)
            start[i] = i + 1;
    }

    void __sanitizer_cov_pcs_init(uintptr_t const* beg, uintptr_t const* end)
    {
        static bool done = false;
        if(done)
            return;
        done = true;
        size_t n = (end - beg) / 2;
        if(n > n_guards)
            n = n_guards;
        classify_all(beg, n);
    }

    void __sanitizer_cov_trace_pc_guard(uint32_t* guard)
    {
        int m = g_mode;
        if(m == 0)
            return;
        uint32_t g = *guard;
        if(!g || g > n_guards || !guard_class[g])
            return;
        guard_hit[g] = 1;
        if(m == (int) Mode::CTRL)
        {
            if(self < 0 || self_epoch != g_epoch)
                return;
            do_point(g);
        }
        else
            do_delay_point();
    }

    int pthread_create(pthread_t* th, pthread_attr_t const* attr, void* (*fn)(void*), void* arg)
    {
        auto r = REAL(pthread_create);
        if(!controlled())
            return r(th, attr, fn, arg);
        if(nthreads >= MAXT)
        {
            fprintf(stderr, "sched: too many threads\n");
            _exit(3);
        }
        int id = nthreads++;
        T[id] = Thread();
        T[id].fn = fn;
        T[id].arg = arg;
        T[id].state = RUNNABLE;
        T[id].prio = 1 + rnd(1000000);
        T[id].epoch = g_epoch;
        stats.threads++;
        int rc = r(th, attr, trampoline, &T[id]);
        if(rc)
        {
            T[id].state = FINISHED;
            return rc;
        }
        T[id].handle = *th;
        do_point(0xfffffff0u);
        return 0;
    }

    int pthread_join(pthread_t th, void** ret)
    {
        auto r = REAL(pthread_join);
        if(controlled())
        {
            // the newest first: handles are used again
            for(int i = nthreads - 1; i >= 0; --i)
                if(pthread_equal(T[i].handle, th) && T[i].fn)
                {
                    do_point(0xfffffff1u);
                    while(T[i].state != FINISHED)
                        block_on(&T[i], "join");
                    break;
                }
        }
        return r(th, ret);
    }

    int pthread_mutex_lock(pthread_mutex_t* m)
    {
        if(!controlled())
            return REAL(pthread_mutex_lock)(m);
        do_point(0xfffffff2u);
        auto t = REAL(pthread_mutex_trylock);
        while(true)
        {
            int rc = t(m);
            if(rc != EBUSY)
                return rc;
            block_on(m, "mutex");
        }
    }

    int pthread_mutex_unlock(pthread_mutex_t* m)
    {
        auto r = REAL(pthread_mutex_unlock);
        if(!controlled())
            return r(m);
        int rc = r(m);
        wake_obj(m);
        do_point(0xfffffff3u);
        return rc;
    }

    int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m)
    {
        if(!controlled())
            return REAL(pthread_cond_wait)(c, m);
        REAL(pthread_mutex_unlock)(m);
        wake_obj(m);
        block_on(c, "condition variable");
        pthread_mutex_lock(m);
        return 0;
    }

    static int timed(pthread_mutex_t* m)
    {
        REAL(pthread_mutex_unlock)(m);
        wake_obj(m);
        do_yield();
        pthread_mutex_lock(m);
        return ETIMEDOUT;
    }

    int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, timespec const* ts)
    {
        if(!controlled())
            return REAL(pthread_cond_timedwait)(c, m, ts);
        return timed(m);
    }

    int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, timespec const* ts)
    {
        if(!controlled())
            return REAL(pthread_cond_clockwait)(c, m, k, ts);
        return timed(m);
    }

    int pthread_cond_signal(pthread_cond_t* c)
    {
        if(!controlled())
            return REAL(pthread_cond_signal)(c);
        wake_obj(c, true);
        do_point(0xfffffff4u);
        return 0;
    }

    int pthread_cond_broadcast(pthread_cond_t* c)
    {
        if(!controlled())
            return REAL(pthread_cond_broadcast)(c);
        wake_obj(c);
        do_point(0xfffffff5u);
        return 0;
    }

    int pthread_rwlock_rdlock(pthread_rwlock_t* l)
    {
        if(!controlled())
            return REAL(pthread_rwlock_rdlock)(l);
        do_point(0xfffffff6u);
        int rc;
        while((rc = REAL(pthread_rwlock_tryrdlock)(l)) == EBUSY)
            block_on(l, "rwlock");
        return rc;
    }

    int pthread_rwlock_wrlock(pthread_rwlock_t* l)
    {
        if(!controlled())
            return REAL(pthread_rwlock_wrlock)(l);
        do_point(0xfffffff7u);
        int rc;
        while((rc = REAL(pthread_rwlock_trywrlock)(l)) == EBUSY)
            block_on(l, "rwlock");
        return rc;
    }

    int pthread_rwlock_unlock(pthread_rwlock_t* l)
    {
        auto r = REAL(pthread_rwlock_unlock);
        if(!controlled())
            return r(l);
        int rc = r(l);
        wake_obj(l);
        do_point(0xfffffff8u);
        return rc;
    }

    int sched_yield()
    {
        if(!controlled())
            return (int) syscall(SYS_sched_yield);
        do_yield();
        return 0;
    }

    int nanosleep(timespec const* a, timespec* b)
    {
        if(!controlled())
            return REAL(nanosleep)(a, b);
        do_yield();
        return 0;
    }

    int clock_nanosleep(clockid_t c, int f, timespec const* a, timespec* b)
    {
        if(!controlled())
            return REAL(clock_nanosleep)(c, f, a, b);
        do_yield();
        return 0;
    }

#ifdef VF_TSAN_GUARDS
    // ThreadSanitizer defines these itself; linked before its runtime, these take their place
    // (a thread must not be preempted while it holds a guard that others wait for outside of our control)
    void __tsan_acquire(void*);
    void __tsan_release(void*);

    int __cxa_guard_acquire(void* g)
    {
        char* done = (char*) g;
        char* busy = done + 1;
        nopreempt++;
        for(;;)
        {
            if(__atomic_load_n(done, __ATOMIC_ACQUIRE))
            {
                __tsan_acquire(g);
                nopreempt--;
                return 0;
            }
            if(!__atomic_exchange_n(busy, 1, __ATOMIC_ACQUIRE))
            {
                if(!__atomic_load_n(done, __ATOMIC_ACQUIRE))
                    return 1;
                __atomic_store_n(busy, 0, __ATOMIC_RELEASE);
            }
            else
                syscall(SYS_sched_yield);
        }
    }

    void __cxa_guard_release(void* g)
    {
        __tsan_release(g);
        __atomic_store_n((char*) g, 1, __ATOMIC_RELEASE);
        __atomic_store_n((char*) g + 1, 0, __ATOMIC_RELEASE);
        nopreempt--;
    }

    void __cxa_guard_abort(void* g)
    {
        __atomic_store_n((char*) g + 1, 0, __ATOMIC_RELEASE);
        nopreempt--;
    }
#else
    int __cxa_guard_acquire(void* g)
    {
        static int (*c)(void*) = nullptr;
        auto r = real<int (*)(void*)>((int (*)(void*)) & __interceptor___cxa_guard_acquire, "__cxa_guard_acquire", c);
        nopreempt++;
        int rc = r(g);
        if(!rc)
            nopreempt--;
        return rc;
    }

    void __cxa_guard_release(void* g)
    {
        static void (*c)(void*) = nullptr;
        auto r
            = real<void (*)(void*)>((void (*)(void*)) & __interceptor___cxa_guard_release, "__cxa_guard_release", c);
        r(g);
        nopreempt--;
    }

    void __cxa_guard_abort(void* g)
    {
        static void (*c)(void*) = nullptr;
        auto r = real<void (*)(void*)>((void (*)(void*)) & __interceptor___cxa_guard_abort, "__cxa_guard_abort", c);
        r(g);
        nopreempt--;
    }
#endif
}
