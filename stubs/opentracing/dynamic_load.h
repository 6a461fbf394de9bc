#pragma once
#include <memory>
#include <string>
#include <system_error>
#include <opentracing/tracer_factory.h>
#include <cstring>
namespace opentracing {
BEGIN_OPENTRACING_ABI_NAMESPACE
inline const std::error_category& dynamic_load_error_category() { return tracer_factory_error_category(); }
const std::error_code dynamic_load_failure_error(1, dynamic_load_error_category());
const std::error_code dynamic_load_not_supported_error(2, dynamic_load_error_category());
const std::error_code incompatible_library_versions_error(3, dynamic_load_error_category());
END_OPENTRACING_ABI_NAMESPACE
}
extern "C" {
typedef int (*OpenTracingMakeTracerFactoryType)(const char*, const char*, const void**, void*, void**);
#define OPENTRACING_DECLARE_IMPL_FACTORY(X) \
  extern OpenTracingMakeTracerFactoryType const __attribute((weak)) OpenTracingMakeTracerFactory; \
  OpenTracingMakeTracerFactoryType const OpenTracingMakeTracerFactory = X;
}
