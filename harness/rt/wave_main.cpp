#include "rt.hpp"

#include <spdlog/spdlog.h>

int main(int argc, char** argv)
{
    hx::init(argc, argv);
    spdlog::set_level(spdlog::level::off);
    mw::on_fail = [](char const* t) { hx::found("MEMORY", "%s", t); };
    hx::loop(wave_case);
    hx::finish();
}
