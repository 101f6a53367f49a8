// Observer of the arena memory, compiled WITHOUT instrumentation.
//
// The chunks of an arena come from hwloc_alloc_membind() and go back through hwloc_free(); both are
// interposed here. The blocks are observed through the guarded hooks in ChunkedBumpAlloc (called after a
// block was allocated, before it is deallocated). Every block has to lie in a live chunk, to be big enough
// and aligned, to overlap no other live block, and to be returned once, to its own arena; a chunk must not be
// given back while a block in it is live, and has to be given back completely.
// With AddressSanitizer, memory that is not part of a live block is poisoned, so any use of it is reported.
#include "memwatch.hpp"

#include <cerrno>
#include <dlfcn.h>
#include <hwloc.h>
#include <sched.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>

#include <atomic>
#include <map>

extern "C" void __asan_poison_memory_region(void const volatile*, size_t) __attribute__((weak));
extern "C" void __asan_unpoison_memory_region(void const volatile*, size_t) __attribute__((weak));

namespace mw
{
    void (*on_fail)(char const*) = nullptr;
    long fail_chunk_in = -1;
    static uint64_t failed;

    namespace
    {
        struct Block
        {
            size_t req, len;
            void const* arena;
        };

        struct Chunk
        {
            size_t len;
            uint64_t gen;
            uint64_t handed_out;
            int pu; // processing unit which it is bound to, -1: several
        };

        std::atomic_flag flag = ATOMIC_FLAG_INIT;
        Stats st;
        uint64_t gen = 0;

        std::map<uintptr_t, Block>& blocks()
        {
            static auto* m = new std::map<uintptr_t, Block>;
            return *m;
        }

        std::map<uintptr_t, Chunk>& chunks()
        {
            static auto* m = new std::map<uintptr_t, Chunk>;
            return *m;
        }

        struct Lock
        {
            Lock()
            {
                while(flag.test_and_set(std::memory_order_acquire))
                    sched_yield();
            }

            ~Lock()
            {
                flag.clear(std::memory_order_release);
            }
        };

        template<typename... A>
        void fail(char const* f, A... a)
        {
            char buf[400];
            snprintf(buf, sizeof(buf), f, a...);
            flag.clear();
            if(on_fail)
                on_fail(buf);
            fprintf(stdout, "FOUND MEMORY: %s\n", buf);
            fflush(stdout);
            _exit(1);
        }

        std::map<uintptr_t, Chunk>::iterator chunk_of(uintptr_t p)
        {
            auto it = chunks().upper_bound(p);
            if(it == chunks().begin())
                return chunks().end();
            --it;
            return p < it->first + it->second.len ? it : chunks().end();
        }
    } // namespace

    int chunk_pu(void const* p)
    {
        Lock l;
        auto it = chunk_of((uintptr_t) p);
        return it == chunks().end() ? -2 : it->second.pu;
    }

    Stats stats()
    {
        Lock l;
        return st;
    }

    void reset_peaks()
    {
        Lock l;
        st.max_live_blocks = st.live_blocks;
        st.max_live_chunks = st.live_chunks;
        st.max_live_chunk_bytes = st.live_chunk_bytes;
    }

    void fail_next_chunk()
    {
        Lock l;
        fail_chunk_in = 0;
    }

    uint64_t failed_chunks()
    {
        Lock l;
        return failed;
    }

    void new_generation()
    {
        Lock l;
        ++gen;
    }

    uint64_t old_chunks()
    {
        Lock l;
        uint64_t n = 0;
        for(auto& c : chunks())
            n += c.second.gen < gen;
        return n;
    }

    uint64_t unused_chunks()
    {
        Lock l;
        uint64_t n = 0;
        for(auto& c : chunks())
        {
            auto b = blocks().lower_bound(c.first);
            n += b == blocks().end() || b->first >= c.first + c.second.len;
        }
        return n;
    }

    bool live(void const* p_, size_t n)
    {
        Lock l;
        uintptr_t p = (uintptr_t) p_;
        auto it = blocks().upper_bound(p);
        if(it == blocks().begin())
            return false;
        --it;
        return p + n <= it->first + it->second.req;
    }

    bool in_chunk(void const* p, size_t n)
    {
        Lock l;
        auto it = chunk_of((uintptr_t) p);
        return it != chunks().end() && (uintptr_t) p + n <= it->first + it->second.len;
    }

    void describe_live(char* buf, size_t n)
    {
        Lock l;
        size_t k = 0;
        int c = 0;
        buf[0] = 0;
        for(auto& b : blocks())
            if(c++ < 8 && k < n)
                k += snprintf(buf + k, n - k, "%#lx(%zu) ", (unsigned long) b.first, b.second.req);
    }
} // namespace mw

using namespace mw;

extern "C" void redgrapes_verif_alloc(void const* arena, uintptr_t p, size_t n, size_t len)
{
    Lock l;
    if(!p)
        return;
    if(len < n)
        fail("block of %zu bytes for a request of %zu bytes", len, n);
    if(p % 16 != 0)
        fail("block %#lx (request of %zu bytes) is not aligned", (unsigned long) p, n);
    auto c = chunk_of(p);
    if(c == chunks().end() || p + len > c->first + c->second.len)
        fail("block %#lx+%zu is not part of a chunk of the arena", (unsigned long) p, len);
    auto it = blocks().upper_bound(p);
    if(it != blocks().end() && it->first < p + len)
        fail("block %#lx+%zu overlaps live block %#lx+%zu", (unsigned long) p, len, (unsigned long) it->first, it->second.len);
    if(it != blocks().begin())
    {
        --it;
        if(it->first + it->second.len > p)
            fail(
                "block %#lx+%zu overlaps live block %#lx+%zu",
                (unsigned long) p,
                len,
                (unsigned long) it->first,
                it->second.len);
    }
    blocks()[p] = Block{n, len, arena};
    if(++c->second.handed_out == 2)
        ++st.multi_alloc_chunks;
    ++st.blocks;
    if(++st.live_blocks > st.max_live_blocks)
        st.max_live_blocks = st.live_blocks;
    st.live_bytes += n;
    if(__asan_unpoison_memory_region)
        __asan_unpoison_memory_region((void*) p, n);
}

extern "C" void redgrapes_verif_dealloc(void const* arena, uintptr_t p)
{
    Lock l;
    auto it = blocks().find(p);
    if(it == blocks().end())
        fail("%#lx is returned, which is no live block", (unsigned long) p);
    if(it->second.arena != arena)
        fail("block %#lx is returned to another arena than it came from", (unsigned long) p);
    if(__asan_poison_memory_region)
        __asan_poison_memory_region((void*) p, it->second.len);
    ++st.returned;
    --st.live_blocks;
    st.live_bytes -= it->second.req;
    blocks().erase(it);
}

extern "C" void* hwloc_alloc_membind(
    hwloc_topology_t t,
    size_t len,
    hwloc_const_bitmap_t set,
    hwloc_membind_policy_t policy,
    int flags)
{
    using F = void* (*) (hwloc_topology_t, size_t, hwloc_const_bitmap_t, hwloc_membind_policy_t, int);
    static F real = (F) dlsym(RTLD_NEXT, "hwloc_alloc_membind");
    {
        Lock l;
        if(fail_chunk_in >= 0 && fail_chunk_in-- == 0)
        {
            ++failed;
            errno = ENOMEM;
            return nullptr;
        }
    }
    void* p = real(t, len, set, policy, flags);
    // binding memory strictly may be impossible where this runs; that is not what is examined
    if(!p)
        p = real(t, len, set, policy, flags & ~HWLOC_MEMBIND_STRICT);
    if(p)
    {
        Lock l;
        if(__asan_unpoison_memory_region)
            __asan_unpoison_memory_region(p, len);
        chunks()[(uintptr_t) p] = Chunk{len, gen, 0, hwloc_bitmap_weight(set) == 1 ? hwloc_bitmap_first(set) : -1};
        ++st.chunks;
        ++st.live_chunks;
        st.live_chunk_bytes += len;
        if(st.live_chunks > st.max_live_chunks)
            st.max_live_chunks = st.live_chunks;
        if(st.live_chunk_bytes > st.max_live_chunk_bytes)
            st.max_live_chunk_bytes = st.live_chunk_bytes;
    }
    return p;
}

extern "C" int hwloc_free(hwloc_topology_t t, void* p, size_t len)
{
    using F = int (*)(hwloc_topology_t, void*, size_t);
    static F real = (F) dlsym(RTLD_NEXT, "hwloc_free");
    {
        Lock l;
        if(!p)
            return real(t, p, len);
        auto it = chunks().find((uintptr_t) p);
        if(it == chunks().end())
            fail("%p is given back to the system, which is no live chunk", p);
        if(it->second.len != len)
            fail("chunk %p of %zu bytes is given back with a size of %zu bytes", p, it->second.len, len);
        auto b = blocks().lower_bound((uintptr_t) p);
        if(b != blocks().end() && b->first < (uintptr_t) p + len)
            fail("chunk %p+%zu is given back while block %#lx is live", p, len, (unsigned long) b->first);
        if(__asan_unpoison_memory_region)
            __asan_unpoison_memory_region(p, len);
        ++st.chunks_freed;
        --st.live_chunks;
        st.live_chunk_bytes -= len;
        chunks().erase(it);
    }
    return real(t, p, len);
}
