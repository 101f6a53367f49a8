#include "rt.hpp"

#include <spdlog/spdlog.h>

#include <cstring>

int main(int argc, char** argv)
{
    hx::init(argc, argv);
    spdlog::set_level(spdlog::level::off);
    mw::on_fail = [](char const* t) { hx::found("MEMORY", "%s", t); };
    struct
    {
        char const* name;
        void (*f)(uint64_t);
    } w[] = {
        {"call", call_case},
        {"tags", tags_case},
        {"mpi", mpi_case},
        {"guard", guard_case},
        {"refuse", refuse_case},
        {"workers", workers_case},
        {"access", access_case},
    };
    for(auto& x : w)
        if(hx::args.what == x.name)
        {
            hx::loop(x.f);
            hx::finish();
        }
    fprintf(stderr, "no such workload\n");
    return 3;
}
