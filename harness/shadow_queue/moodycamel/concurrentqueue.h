// Stand-in for moodycamel::ConcurrentQueue in the ThreadSanitizer builds. The original relies on memory
// fences, which ThreadSanitizer does not model. This one gives the same guarantees, no more: a multi-producer
// multi-consumer queue where enqueue() of an element happens-before its dequeue. Everything else is hidden
// from the race detector (plain code in an uninstrumented unit, raw spin lock).
#pragma once
#include <cstddef>
#include <limits>
extern "C"
{
    void* vfq_create(void);
    void vfq_destroy(void*);
    void vfq_push(void*, void*);
    void* vfq_pop(void*);
    void __tsan_acquire(void*);
    void __tsan_release(void*);
}

namespace moodycamel
{
    namespace details
    {
        template<typename T>
        struct const_numeric_max
        {
            static T const value = std::numeric_limits<T>::max();
        };
    } // namespace details

    template<typename T>
    class ConcurrentQueue;

    template<typename T>
    class ConcurrentQueue<T*>
    {
        void* q;

    public:
        ConcurrentQueue(std::size_t = 0) : q(vfq_create())
        {
        }

        ConcurrentQueue(ConcurrentQueue const&) = delete;

        ~ConcurrentQueue()
        {
            vfq_destroy(q);
        }

        bool enqueue(T* t)
        {
            __tsan_release((void*) t);
            vfq_push(q, (void*) t);
            return true;
        }

        bool try_dequeue(T*& t)
        {
            void* p = vfq_pop(q);
            if(!p)
                return false;
            __tsan_acquire(p);
            t = (T*) p;
            return true;
        }

        std::size_t size_approx() const
        {
            return 0;
        }
    };
} // namespace moodycamel
