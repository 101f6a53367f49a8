// Workloads on the whole runtime which check one aspect each; frame in hx.hpp.
#pragma once
#include "../support/hx.hpp"
#include "../support/memwatch.hpp"

#include <cstdarg>
#include <cstdio>
#include <string>

void call_case(uint64_t seed); // C24
void tags_case(uint64_t seed); // C18
void mpi_case(uint64_t seed); // C22
void guard_case(uint64_t seed); // C12
void refuse_case(uint64_t seed); // C10
void wave_case(uint64_t seed); // C15
void workers_case(uint64_t seed); // C23
void access_case(uint64_t seed); // C11

__attribute__((format(printf, 1, 2))) static inline std::string fmt_(char const* f, ...)
{
    char b[600];
    va_list l;
    va_start(l, f);
    vsnprintf(b, sizeof b, f, l);
    va_end(l);
    return b;
}

static inline void check_no_blocks()
{
    if(mw::stats().live_blocks)
    {
        char buf[300];
        mw::describe_live(buf, sizeof(buf));
        hx::found("LEAK", "blocks are not returned after finalize(): %s", buf);
    }
}
