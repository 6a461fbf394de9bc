MH='src/tracer/propagation/multiheader_propagator.cpp'; T='src/tracer/propagation/trace_context_propagator.cpp'; C='src/tracer/propagation/cloud_trace_propagator.cpp'
EN='src/tracer/propagation/envoy_propagator.cpp'; B='src/tracer/propagation/binary_propagation.cpp'; P='src/tracer/propagation/propagation.cpp'
W=['C22']
M = [
('V','mh-either',W,[(MH,'  if (!has_trace_id || !has_span_id) {','  if (!has_trace_id && !has_span_id) {')]),
('V','mh-span-ignored',W,[(MH,"""            if (!span_id_maybe) {
              return opentracing::make_unexpected(
                  opentracing::span_context_corrupted_error);
            }
            span_id = *span_id_maybe;""","""            if (span_id_maybe) {
              span_id = *span_id_maybe;
            }""")]),
('V','mh-trace-false',W,[(MH,"""            if (!HexToUint128(value, trace_id_high, trace_id_low)) {
              return opentracing::make_unexpected(
                  opentracing::span_context_corrupted_error);
            }
            has_trace_id = true;""","""            has_trace_id =
                static_cast<bool>(HexToUint128(value, trace_id_high, trace_id_low));""")]),
('V','tc-found-first',W,[(T,"""            auto was_successful = ParseTraceContext(value, trace_context);
            if (!was_successful) {
              return opentracing::make_unexpected(was_successful.error());
            }
            parent_header_found = true;""","""            parent_header_found = true;
            ParseTraceContext(value, trace_context);""")]),
('V','ct-error-none',W,[(C,"""                if (!was_successful) {
                  return opentracing::make_unexpected(was_successful.error());
                }
                parent_header_found = true;""","""                if (was_successful) {
                  parent_header_found = true;
                }""")]),
('V','en-empty',W,[(EN,"""  if (base64_decoding.empty()) {
    return opentracing::make_unexpected(
        opentracing::span_context_corrupted_error);
  }
""","""  if (base64_decoding.empty()) {
    return false;
  }
""")]),
('V','en-inner-ignored',W,[(EN,"""  return lightstep::ExtractSpanContext(istream, trace_id_low, span_id, sampled,
                                       baggage);""","""  auto extracted = lightstep::ExtractSpanContext(istream, trace_id_low, span_id,
                                                 sampled, baggage);
  return static_cast<bool>(extracted);""")]),
('V','bin-unchecked',W,[(B,"""  if (!binary_carrier.ParseFromIstream(&carrier)) {
    return opentracing::make_unexpected(
        opentracing::span_context_corrupted_error);
  }
  return ExtractSpanContext(""","""  if (!binary_carrier.ParseFromIstream(&carrier) && carrier.bad()) {
    return opentracing::make_unexpected(
        opentracing::span_context_corrupted_error);
  }
  return ExtractSpanContext(""")]),
('V','ch-continue',W,[(P,"""      return result;
    }
    if (*result) {""","""      continue;
    }
    if (*result) {""")]),
('V','ch-last-wins',W,[(P,"""    if (*result) {
      // An extractor succeeded, return without trying other extractors
      return result;
    }
  }
  return false;""","""    found = found || *result;
  }
  return found;"""),(P,"  for (auto& propagator : propagation_options.extract_propagators) {","  bool found = false;\n  for (auto& propagator : propagation_options.extract_propagators) {")]),
('Q','mh-counts',W,[(MH,'  bool has_trace_id = false;\n  bool has_span_id = false;','  int has_trace_id = 0;\n  int has_span_id = 0;'),(MH,'has_trace_id = true;','++has_trace_id;'),(MH,'has_span_id = true;','++has_span_id;')]),
('Q','mh-mask',W,[(MH,'  bool has_trace_id = false;\n  bool has_span_id = false;','  unsigned found = 0;'),(MH,'has_trace_id = true;','found |= 1u;'),(MH,'has_span_id = true;','found |= 2u;'),
  (MH,'  if (!has_trace_id && !has_span_id) {','  if (found == 0) {'),(MH,'  if (!has_trace_id || !has_span_id) {','  if (found != 3u) {')]),
('Q','mh-accept-first',W,[(MH,"""  if (!has_trace_id && !has_span_id) {
    return false;
  }
  if (!has_trace_id || !has_span_id) {
    return opentracing::make_unexpected(
        opentracing::span_context_corrupted_error);
  }
  return true;""","""  if (has_trace_id && has_span_id) {
    return true;
  }
  if (has_trace_id != has_span_id) {
    return opentracing::make_unexpected(
        opentracing::span_context_corrupted_error);
  }
  return false;""")]),
('Q','mh-helper',W,[(MH,"""template <class KeyCompare>
opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(""","""static opentracing::expected<void> ReadSpanId(opentracing::string_view value,
                                              uint64_t& span_id, bool& found) {
  auto span_id_maybe = HexToUint64(value);
  if (!span_id_maybe) {
    return opentracing::make_unexpected(
        opentracing::span_context_corrupted_error);
  }
  span_id = *span_id_maybe;
  found = true;
  return {};
}

template <class KeyCompare>
opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl("""),(MH,"""            auto span_id_maybe = HexToUint64(value);
            if (!span_id_maybe) {
              return opentracing::make_unexpected(
                  opentracing::span_context_corrupted_error);
            }
            span_id = *span_id_maybe;
            has_span_id = true;
          } else if (key_compare(key, sampled_key_)) {""","""            return ReadSpanId(value, span_id, has_span_id);
          } else if (key_compare(key, sampled_key_)) {""")]),
('Q','mh-named-lambda',W,[(MH,"""  auto result =
      carrier.ForeachKey([&](""","""  auto read_header = [&]("""),(MH,"""              std::make_error_code(std::errc::not_enough_memory));
        }
      });""","""              std::make_error_code(std::errc::not_enough_memory));
        }
      };
  auto result = carrier.ForeachKey(read_header);""")]),
('Q','tc-return-parse',W,[(T,"""            if (!was_successful) {
              return opentracing::make_unexpected(was_successful.error());
            }
            parent_header_found = true;""","""            parent_header_found = static_cast<bool>(was_successful);
            return was_successful;""")]),
('Q','ct-flag-int',W,[(C,"      bool parent_header_found = false;","      int headers = 0;"),(C,"parent_header_found = true;","++headers;"),(C,"return parent_header_found;","return headers > 0;")]),
('Q','en-size',W,[(EN,"base64_decoding.empty()","base64_decoding.size() == 0")]),
('Q','en-decode-once',W,[(EN,"""  auto value = *value_maybe;
  std::string base64_decoding;""","""  const auto& value = *value_maybe;
  std::string base64_decoding;""")]),
('Q','bin-parse-var',W,[(B,"""  if (!binary_carrier.ParseFromIstream(&carrier)) {
    return opentracing::make_unexpected(
        opentracing::span_context_corrupted_error);
  }
  return ExtractSpanContext(binary_carrier, trace_id, span_id, sampled,
                            baggage);""","""  const bool parsed = binary_carrier.ParseFromIstream(&carrier);
  if (parsed) {
    return ExtractSpanContext(binary_carrier, trace_id, span_id, sampled,
                              baggage);
  }
  return opentracing::make_unexpected(
      opentracing::span_context_corrupted_error);""")]),
('Q','ch-index',W,[(P,"""  for (auto& propagator : propagation_options.extract_propagators) {
    baggage.clear();
    auto result = propagator->""","""  const auto& propagators = propagation_options.extract_propagators;
  for (size_t i = 0; i < propagators.size(); ++i) {
    baggage.clear();
    auto result = propagators[i]->""")]),
('Q','ch-one-test',W,[(P,"""    if (!result) {
      // One of the injected span contexts is corrupt, return immediately
      // without trying the other extractors.
      return result;
    }
    if (*result) {
      // An extractor succeeded, return without trying other extractors
      return result;
    }""","""    if (!result || *result) {
      return result;
    }""")]),
]
