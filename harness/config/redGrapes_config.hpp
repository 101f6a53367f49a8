// configuration of redGrapes for the harnesses
#pragma once

#include <redGrapes/scheduler/tag_match_property.hpp>
#include <redGrapes/task/property/label.hpp>

enum SchedulerTags
{
    TAG_A,
    TAG_B,
    TAG_C,
    TAG_D,
    TAG_HIGH = 40
};

#define REDGRAPES_TASK_PROPERTIES                                                                                     \
    redGrapes::LabelProperty, redGrapes::scheduler::SchedulingTagProperties<SchedulerTags>

#ifndef REDGRAPES_ALLOC_CHUNKSIZE
#    define REDGRAPES_ALLOC_CHUNKSIZE (64 * 1024)
#endif

// number of polls before a waiting thread sleeps: small, so that sleeping is exercised
#ifndef REDGRAPES_CONDVAR_TIMEOUT
#    define REDGRAPES_CONDVAR_TIMEOUT 3
#endif

template<>
struct fmt::formatter<SchedulerTags>
{
    constexpr auto parse(format_parse_context& ctx)
    {
        return ctx.begin();
    }

    template<typename FormatContext>
    auto format(SchedulerTags const& tag, FormatContext& ctx)
    {
        return fmt::format_to(ctx.out(), "{}", (int) tag);
    }
};
