#pragma once
#include <opentracing/string_view.h>
