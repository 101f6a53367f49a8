// storage of the queue stand-in (see shadow_queue), compiled without instrumentation
#include <atomic>
#include <deque>

#include <sched.h>

namespace
{
    struct Q
    {
        std::atomic_flag f = ATOMIC_FLAG_INIT;
        std::deque<void*> d;

        void lock()
        {
            while(f.test_and_set(std::memory_order_acquire))
                sched_yield();
        }

        void unlock()
        {
            f.clear(std::memory_order_release);
        }
    };
} // namespace

extern "C" void* vfq_create(void)
{
    return new Q;
}

extern "C" void vfq_destroy(void* q)
{
    delete (Q*) q;
}

extern "C" void vfq_push(void* q_, void* p)
{
    Q* q = (Q*) q_;
    q->lock();
    q->d.push_back(p);
    q->unlock();
}

extern "C" void* vfq_pop(void* q_)
{
    Q* q = (Q*) q_;
    void* p = nullptr;
    q->lock();
    if(!q->d.empty())
    {
        p = q->d.front();
        q->d.pop_front();
    }
    q->unlock();
    return p;
}
