J = "src/tracer/json_options.cpp"
def R(a, b): return [(J, a, b)]
M = [
 ("V", "drop-verbose", R("  options.verbose = tracer_configuration.verbose();\n", "")),
 ("V", "drop-timeout", R("    options.report_timeout =\n        std::chrono::microseconds{tracer_configuration.report_timeout()};\n", "")),
 ("V", "swap-name-token", [(J, "options.component_name = tracer_configuration.component_name();", "options.component_name = tracer_configuration.access_token();")]),
 ("V", "timeout-from-period", R("std::chrono::microseconds{tracer_configuration.report_timeout()}", "std::chrono::microseconds{tracer_configuration.reporting_period()}")),
 ("V", "period-into-timeout", R("    options.reporting_period =\n", "    options.report_timeout =\n")),
 ("V", "inverted", R("if (!tracer_configuration.collector_host().empty())", "if (tracer_configuration.collector_host().empty())")),
 ("V", "unguarded", R("  if (tracer_configuration.collector_port() != 0) {\n    options.collector_port = tracer_configuration.collector_port();\n  }\n", "  options.collector_port = tracer_configuration.collector_port();\n")),
 ("V", "endpoints-unguarded", R("  if (!tracer_configuration.satellite_endpoints().empty()) {\n    options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);\n  }\n", "  options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);\n")),
 ("V", "certificates", R("    options.ssl_root_certificates =\n        tracer_configuration.ssl_root_certificates();\n", "")),
 ("V", "port-limit", R("port > std::numeric_limits<uint16_t>::max()", "port > 2 * std::numeric_limits<uint16_t>::max()")),
 ("V", "port-zero", R("    if (port == 0) {\n      throw std::runtime_error{\"endpoint port outside of range\"};\n    }\n", "")),
 ("V", "mode-swapped", R("  if (s == \"envoy\") {\n    return PropagationMode::envoy;", "  if (s == \"envoy\") {\n    return PropagationMode::b3;")),
 ("V", "parse-ignored", R("    error_message = parse_result.ToString();\n    return opentracing::make_unexpected(opentracing::configuration_parse_error);", "    error_message = parse_result.ToString();")),
 ("V", "only-with-modes", R("  for (auto& tag : tracer_configuration.tags()) {\n    options.tags.emplace(tag.first, tag.second);\n  }\n", "  if (options.use_stream_recorder) {\n    for (auto& tag : tracer_configuration.tags()) {\n      options.tags.emplace(tag.first, tag.second);\n    }\n  }\n")),
 ("V", "wrong-condition", R("if (tracer_configuration.report_timeout() != 0)", "if (tracer_configuration.reporting_period() != 0)")),
 ("Q", "helper", [(J, "//--------------------------------------------------------------------------------------------------\n// MakeTracerOptions\n", "static void SetCollector(const tracer_configuration::TracerConfiguration& c, LightStepTracerOptions& o) {\n  if (c.collector_port() != 0) {\n    o.collector_port = c.collector_port();\n  }\n}\n\n//--------------------------------------------------------------------------------------------------\n// MakeTracerOptions\n"), (J, "  if (tracer_configuration.collector_port() != 0) {\n    options.collector_port = tracer_configuration.collector_port();\n  }\n", "  SetCollector(tracer_configuration, options);\n")]),
 ("Q", "locals", R("  if (tracer_configuration.report_timeout() != 0) {\n    options.report_timeout =\n        std::chrono::microseconds{tracer_configuration.report_timeout()};", "  const auto timeout = tracer_configuration.report_timeout();\n  if (timeout != 0) {\n    options.report_timeout = std::chrono::microseconds{timeout};")),
 ("Q", "reordered", [(J, "  options.verbose = tracer_configuration.verbose();\n", ""), (J, "  LightStepTracerOptions options;\n", "  LightStepTracerOptions options;\n  options.verbose = tracer_configuration.verbose();\n")]),
 ("Q", "early-continue", R("    if (port == 0) {\n      throw std::runtime_error{\"endpoint port outside of range\"};\n    }\n    if (port > std::numeric_limits<uint16_t>::max()) {", "    if (port < 1 || port > 65535) {")),
 ("Q", "else-branch", R("if (tracer_configuration.max_buffered_spans() != 0) {\n", "if (tracer_configuration.max_buffered_spans() == 0) {\n  } else {\n")),
 ("Q", "size-nonzero", R("if (!tracer_configuration.collector_host().empty())", "if (tracer_configuration.collector_host().size() > 0)")),
]
