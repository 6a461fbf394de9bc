#pragma once
#include <opentracing/tracer.h>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
std::shared_ptr<Tracer> MakeNoopTracer() noexcept;
END_OPENTRACING_ABI_NAMESPACE
}
