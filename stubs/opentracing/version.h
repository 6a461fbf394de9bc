#pragma once
// Minimal stand-in for opentracing-cpp 1.5 (ABI v2), written from its documented API, so that every
// translation unit of /repo can be type-checked and analysed here (the real headers are not installed).
#define OPENTRACING_VERSION "1.5.1"
#define OPENTRACING_ABI_VERSION "2"
#define BEGIN_OPENTRACING_ABI_NAMESPACE inline namespace v2 {
#define END_OPENTRACING_ABI_NAMESPACE }
