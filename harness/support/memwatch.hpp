// Watches where arena memory comes from and which blocks are handed out: see memwatch.cpp.
#pragma once
#include <cstddef>
#include <cstdint>

namespace mw
{
    struct Stats
    {
        uint64_t blocks = 0; // blocks handed out
        uint64_t returned = 0; // blocks given back
        uint64_t chunks = 0; // chunks taken from the system
        uint64_t chunks_freed = 0;
        uint64_t live_blocks = 0, live_bytes = 0, max_live_blocks = 0;
        uint64_t live_chunks = 0, live_chunk_bytes = 0, max_live_chunks = 0, max_live_chunk_bytes = 0;
        uint64_t multi_alloc_chunks = 0; // chunks in which more than one block was handed out
    };

    Stats stats();
    void reset_peaks();
    //! chunks taken before this call count as old
    void new_generation();
    uint64_t old_chunks();
    //! chunks in which no block is live
    uint64_t unused_chunks();
    //! is [p, p+n) part of live blocks only?
    bool live(void const* p, size_t n);
    //! is [p, p+n) within one live chunk?
    bool in_chunk(void const* p, size_t n);
    //! processing unit which the chunk of p is bound to, -1: several, -2: no chunk
    int chunk_pu(void const* p);
    //! a few live blocks, for reports
    void describe_live(char* buf, size_t n);
    //! reports a violation, must not return
    extern void (*on_fail)(char const* text);
    //! let the n-th chunk request from now fail (-1: never)
    extern long fail_chunk_in;
    //! let the next chunk request fail
    void fail_next_chunk();
    uint64_t failed_chunks();
} // namespace mw
