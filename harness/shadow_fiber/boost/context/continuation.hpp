// Stand-in for boost::context::continuation in the sanitizer builds: the same interface (as far as
// redGrapes uses it) on top of the same fcontext primitives of libboost_context, but every switch is
// announced to AddressSanitizer / ThreadSanitizer, which cannot see a stack switch otherwise.
#pragma once
#include <boost/context/detail/fcontext.hpp>

#include <sys/mman.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <new>
#include <utility>

#if defined(__has_feature)
#    if __has_feature(address_sanitizer)
#        define VF_ASAN 1
#    endif
#    if __has_feature(thread_sanitizer)
#        define VF_TSAN 1
#    endif
#endif

#if VF_ASAN
#    include <sanitizer/asan_interface.h>
#    include <sanitizer/common_interface_defs.h>
#endif
#if VF_TSAN
extern "C" void* __tsan_get_current_fiber(void);
extern "C" void* __tsan_create_fiber(unsigned);
extern "C" void __tsan_destroy_fiber(void*);
extern "C" void __tsan_switch_to_fiber(void*, unsigned);
#endif

namespace boost
{
    namespace context
    {
        namespace vfdetail
        {
            //! what is known about a suspended context
            struct Ctx
            {
                detail::fcontext_t f = nullptr;
                void* fiber = nullptr;
                void const* bottom = nullptr;
                std::size_t size = 0;
            };

            struct Stack
            {
                void* map = nullptr;
                std::size_t len = 0;
                void* fiber = nullptr;

                static Stack* create()
                {
                    Stack* s = new Stack;
                    s->len = 256 * 1024;
                    s->map = ::mmap(
                        nullptr,
                        s->len + 4096,
                        PROT_READ | PROT_WRITE,
                        MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                        -1,
                        0);
                    if(s->map == MAP_FAILED)
                        throw std::bad_alloc();
                    ::mprotect(s->map, 4096, PROT_NONE);
#if VF_TSAN
                    s->fiber = __tsan_create_fiber(0);
#endif
                    return s;
                }

                void* bottom() const
                {
                    return (char*) map + 4096;
                }

                void* top() const
                {
                    return (char*) map + 4096 + len;
                }

                void destroy()
                {
#if VF_TSAN
                    __tsan_destroy_fiber(fiber);
#endif
#if VF_ASAN
                    __asan_unpoison_memory_region(bottom(), len);
#endif
                    ::munmap(map, len + 4096);
                    delete this;
                }
            };

            //! passed along with every jump, lives on the stack of the jumping context
            struct Msg
            {
                void* fiber = nullptr; // of the jumping context
                Stack* finished = nullptr; // stack to free, the jumping context has ended
            };

            inline void* current_fiber()
            {
#if VF_TSAN
                return __tsan_get_current_fiber();
#else
                return nullptr;
#endif
            }

            //! arrive in a context: who came here?
            inline Ctx arrive(detail::transfer_t t, void* fake)
            {
                Ctx from;
#if VF_ASAN
                __sanitizer_finish_switch_fiber(fake, &from.bottom, &from.size);
#endif
                Msg* m = (Msg*) t.data;
                if(m->finished)
                    m->finished->destroy();
                else
                {
                    from.f = t.fctx;
                    from.fiber = m->fiber;
                }
                return from;
            }

            inline Ctx jump(Ctx to, Stack* finished)
            {
                Msg m;
                m.fiber = current_fiber();
                m.finished = finished;
                void* fake = nullptr;
#if VF_ASAN
                __sanitizer_start_switch_fiber(finished ? nullptr : &fake, to.bottom, to.size);
#endif
#if VF_TSAN
                __tsan_switch_to_fiber(to.fiber, 0);
#endif
                return arrive(detail::jump_fcontext(to.f, &m), fake);
            }
        } // namespace vfdetail

        class continuation
        {
            vfdetail::Ctx c;

            explicit continuation(vfdetail::Ctx c) : c(c)
            {
            }

            template<typename Fn>
            struct Start
            {
                Fn* fn;
                vfdetail::Stack* stack;
                vfdetail::Msg msg;
            };

            template<typename Fn>
            static void entry(detail::transfer_t t)
            {
                auto* s = (Start<Fn>*) ((char*) t.data - offsetof(Start<Fn>, msg));
                vfdetail::Stack* stack = s->stack;
                vfdetail::Ctx end;
                {
                    Fn fn(std::move(*s->fn));
                    continuation back(vfdetail::arrive(t, nullptr));
                    back = fn(std::move(back));
                    end = std::exchange(back.c, vfdetail::Ctx());
                }
                if(!end.f)
                    std::abort();
                vfdetail::jump(end, stack);
                std::abort();
            }

        public:
            continuation() noexcept
            {
            }

            continuation(continuation&& o) noexcept : c(std::exchange(o.c, vfdetail::Ctx()))
            {
            }

            continuation& operator=(continuation&& o) noexcept
            {
                if(this != &o)
                {
                    drop();
                    c = std::exchange(o.c, vfdetail::Ctx());
                }
                return *this;
            }

            continuation(continuation const&) = delete;
            continuation& operator=(continuation const&) = delete;

            ~continuation()
            {
                drop();
            }

            void drop()
            {
                if(c.f)
                {
                    // boost would unwind the stack now. redGrapes must never drop a suspended task
                    std::fprintf(stderr, "FOUND SUSPEND: a suspended execution context is destroyed\n");
                    std::fprintf(stdout, "FOUND SUSPEND: a suspended execution context is destroyed\n");
                    std::fflush(stdout);
                    std::abort();
                }
            }

            explicit operator bool() const noexcept
            {
                return c.f != nullptr;
            }

            bool operator!() const noexcept
            {
                return c.f == nullptr;
            }

            continuation resume() &
            {
                return std::move(*this).resume();
            }

            continuation resume() &&
            {
                return continuation(vfdetail::jump(std::exchange(c, vfdetail::Ctx()), nullptr));
            }

            template<typename Fn>
            static continuation start(Fn&& fn)
            {
                using F = std::decay_t<Fn>;
                F f(std::forward<Fn>(fn));
                Start<F> s{&f, vfdetail::Stack::create(), {vfdetail::current_fiber(), nullptr}};
                vfdetail::Ctx to;
                to.f = detail::make_fcontext(s.stack->top(), s.stack->len, &continuation::entry<F>);
                to.fiber = s.stack->fiber;
                to.bottom = s.stack->bottom();
                to.size = s.stack->len;
                void* fake = nullptr;
#if VF_ASAN
                __sanitizer_start_switch_fiber(&fake, to.bottom, to.size);
#endif
#if VF_TSAN
                __tsan_switch_to_fiber(to.fiber, 0);
#endif
                return continuation(vfdetail::arrive(detail::jump_fcontext(to.f, &s.msg), fake));
            }
        };

        template<typename Fn>
        continuation callcc(Fn&& fn)
        {
            return continuation::start(std::forward<Fn>(fn));
        }
    } // namespace context
} // namespace boost
