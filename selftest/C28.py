RB = "src/recorder/report_builder.cpp"; RH = "src/recorder/serialization/report_request_header.cpp"; TC = "src/tracer/tracer.cpp"; AR = "src/recorder/auto_recorder.cpp"; MR = "src/recorder/manual_recorder.cpp"; LM = "src/recorder/legacy_manual_recorder.cpp"; JO = "src/tracer/json_options.cpp"
M = [
 ("V", "logged", [(TC, "    if (options.verbose) {\n      logger->set_level(LogLevel::info);", "    if (options.verbose) {\n      logger->Info(\"access token \", options.access_token);\n      logger->set_level(LogLevel::info);")]),
 ("V", "copied-then-logged", [(TC, "    if (options.verbose) {\n      logger->set_level(LogLevel::info);", "    if (options.verbose) {\n      auto text = \"token \" + options.access_token;\n      std::string more;\n      more.append(text);\n      logger->Info(more);\n      logger->set_level(LogLevel::info);")]),
 ("V", "header-printed", [(RH, "  return oss.str();", "  auto result = oss.str();\n  std::cerr << result << std::endl;\n  return result;"), (RH, "#include <google/protobuf/io/coded_stream.h>", "#include <iostream>\n#include <google/protobuf/io/coded_stream.h>")]),
 ("V", "auth-debug", [(RB, "  preamble_.mutable_auth()->set_access_token(access_token);", "  preamble_.mutable_auth()->set_access_token(access_token);\n  fprintf(stderr, \"%s\\n\", preamble_.ShortDebugString().c_str());")]),
 ("V", "exception", [(RB, "  preamble_.mutable_auth()->set_access_token(access_token);", "  preamble_.mutable_auth()->set_access_token(access_token);\n  if (access_token.size() > 500) {\n    throw std::runtime_error{\"invalid token \" + access_token};\n  }"), (RB, '#include "common/random.h"', '#include <stdexcept>\n#include "common/random.h"')]),
 ("V", "tagged", [(RB, "  reporter->set_reporter_id(GenerateId());", "  *reporter->mutable_tags()->Add() = ToKeyValue(\"token\", access_token);\n  reporter->set_reporter_id(GenerateId());")]),
 ("V", "component", [(JO, "  options.access_token = tracer_configuration.access_token();", "  options.access_token = tracer_configuration.access_token();\n  if (options.component_name.empty()) {\n    options.component_name = options.access_token;\n  }")]),
 ("V", "request-logged", [(LM, "bool LegacyManualRecorder::FlushOne() noexcept try {", "bool LegacyManualRecorder::FlushOne() noexcept try {\n  logger_.Info(\"sending \", builder_.pending().ShortDebugString());")]),
 ("V", "not-sent", [(RH, "auth.set_access_token(tracer_options.access_token);", "auth.set_access_token(tracer_options.component_name);")]),
 ("Q", "via-local", [(RH, "auth.set_access_token(tracer_options.access_token);", "const auto& token = tracer_options.access_token;\n  auth.set_access_token(token);")]),
 ("Q", "other-logged", [(TC, "    if (options.verbose) {\n      logger->set_level(LogLevel::info);", "    if (options.verbose) {\n      logger->Info(\"component \", options.component_name);\n      logger->set_level(LogLevel::info);")]),
 ("Q", "length-checked", [(RB, "  preamble_.mutable_auth()->set_access_token(access_token);", "  if (access_token.size() > 500) {\n    throw std::runtime_error{\"invalid token\"};\n  }\n  preamble_.mutable_auth()->set_access_token(access_token);"), (RB, '#include "common/random.h"', '#include <stdexcept>\n#include "common/random.h"')]),
]
