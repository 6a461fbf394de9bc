#pragma once
#include <chrono>
#include <opentracing/expected.h>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
using SystemClock = std::chrono::system_clock;
using SteadyClock = std::chrono::steady_clock;
using SystemTime = SystemClock::time_point;
using SteadyTime = SteadyClock::time_point;
END_OPENTRACING_ABI_NAMESPACE
}
