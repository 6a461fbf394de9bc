MH='src/tracer/propagation/multiheader_propagator.cpp'; T='src/tracer/propagation/trace_context_propagator.cpp'; C='src/tracer/propagation/cloud_trace_propagator.cpp'
W=['C23']
SPAN="""  result = carrier.Set(span_id_key_,
                       hex_serializer.Uint64ToHex(trace_context.parent_id));
  if (!result) {
    return result;
  }
"""
M=[
('V','inj-wrong-key',W,[(MH,'carrier.Set(span_id_key_,','carrier.Set(sampled_key_,')]),
('V','inj-high-only',W,[(MH,'hex_serializer.Uint64ToHex(trace_context.trace_id_low)','hex_serializer.Uint64ToHex(trace_context.trace_id_high)')]),
('V','inj-halves-swapped',W,[(MH,'hex_serializer.Uint128ToHex(trace_context.trace_id_high,\n                                                   trace_context.trace_id_low)','hex_serializer.Uint128ToHex(trace_context.trace_id_low,\n                                                   trace_context.trace_id_high)')]),
('V','inj-parent-as-trace',W,[(MH,'hex_serializer.Uint64ToHex(trace_context.parent_id)','hex_serializer.Uint64ToHex(trace_context.trace_id_low)')]),
('V','inj-early-value',W,[(MH,SPAN,"  opentracing::string_view value =\n      hex_serializer.Uint64ToHex(trace_context.parent_id);\n  hex_serializer.Uint64ToHex(trace_context.trace_id_low);\n  result = carrier.Set(span_id_key_, value);\n  if (!result) {\n    return result;\n  }\n")]),
('V','inj-unreported',W,[(MH,"  if (!result) {\n    return result;\n  }\n"+SPAN,SPAN)]),
('V','ext-halves',W,[(MH,"HexToUint128(value, trace_id_high, trace_id_low)","HexToUint128(value, trace_id_low, trace_id_high)")]),
('V','tc-key',W,[(T,"carrier.Set(TraceParentHeaderKey","carrier.Set(TraceStateHeaderKey")]),
('Q','inj-span-first',W,[(MH,SPAN,""),(MH,"  opentracing::expected<void> result;\n","  opentracing::expected<void> result;\n"+SPAN)]),
('Q','inj-local',W,[(MH,SPAN,"  auto span_id = hex_serializer.Uint64ToHex(trace_context.parent_id);\n  auto was_set = carrier.Set(span_id_key_, span_id);\n  if (!was_set) {\n    return was_set;\n  }\n")]),
('Q','inj-ternary',W,[(MH,"  if (supports_128bit_) {\n    result = carrier.Set(\n        trace_id_key_, hex_serializer.Uint128ToHex(trace_context.trace_id_high,\n                                                   trace_context.trace_id_low));\n  } else {\n    result = carrier.Set(\n        trace_id_key_, hex_serializer.Uint64ToHex(trace_context.trace_id_low));\n  }\n","  result = carrier.Set(\n      trace_id_key_,\n      supports_128bit_\n          ? hex_serializer.Uint128ToHex(trace_context.trace_id_high,\n                                        trace_context.trace_id_low)\n          : hex_serializer.Uint64ToHex(trace_context.trace_id_low));\n")]),
('Q','inj-tail-return',W,[(MH,"  if (!result) {\n    return result;\n  }\n  return {};\n}\n\n//--------------------------------------------------------------------------------------------------\n// ExtractSpanContextImpl","  return result;\n}\n\n//--------------------------------------------------------------------------------------------------\n// ExtractSpanContextImpl")]),
('Q','inj-string',W,[(MH,SPAN,"  const std::string span_id = hex_serializer.Uint64ToHex(trace_context.parent_id);\n  result = carrier.Set(span_id_key_, span_id);\n  if (!result) {\n    return result;\n  }\n")]),
('Q','ext-locals',W,[(MH,"            if (!HexToUint128(value, trace_id_high, trace_id_low)) {\n              return","            uint64_t high, low;\n            if (!HexToUint128(value, high, low)) {\n              return"),(MH,"            has_trace_id = true;","            trace_id_high = high;\n            trace_id_low = low;\n            has_trace_id = true;")]),
('Q','ct-literal',W,[(C,'const opentracing::string_view PropagationSingleKey = "x-cloud-trace-context";','static const char* const PropagationSingleKey = "x-cloud-trace-context";')]),
]
