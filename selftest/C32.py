T="src/common/timestamp.cpp"; U="src/tracer/utility.h"; S="src/tracer/span.cpp"; LS="src/tracer/legacy/legacy_span.cpp"; CU="src/common/utility.h"; CC="src/common/utility.cpp"; SR="src/recorder/stream_recorder/stream_recorder.cpp"; SI="src/recorder/stream_recorder/stream_recorder_impl.cpp"; TS="src/tracer/serialization.cpp"
M=[
("V","delta-sign",[(T,"  return ComputeNanosecondsSinceEpoch(system_now) -\n         ComputeNanosecondsSinceEpoch(steady_now);","  return ComputeNanosecondsSinceEpoch(steady_now) -\n         ComputeNanosecondsSinceEpoch(system_now);")]),
("Q","delta-order",[(T,"  auto steady_now = std::chrono::steady_clock::now();\n  auto system_now = std::chrono::system_clock::now();","  auto system_now = std::chrono::system_clock::now();\n  auto steady_now = std::chrono::steady_clock::now();")]),
("V","tosteady-sign",[(T,"(system_timestamp) - timestamp_delta","(system_timestamp) + timestamp_delta")]),
("V","tosystem-us",[(T,"std::chrono::nanoseconds{\n      ComputeNanosecondsSinceEpoch(steady_timestamp) + timestamp_delta}","std::chrono::microseconds{\n      (ComputeNanosecondsSinceEpoch(steady_timestamp) + timestamp_delta) / 1000}")]),
("Q","tosystem-tmp",[(T,"  auto time_since_epoch = std::chrono::nanoseconds{\n      ComputeNanosecondsSinceEpoch(steady_timestamp) + timestamp_delta};","  const int64_t sum = timestamp_delta +\n      ComputeNanosecondsSinceEpoch(steady_timestamp);\n  std::chrono::nanoseconds time_since_epoch{sum};")]),
("V","start-and-or",[(U,"  if (start_system_timestamp == SystemTime() &&\n      start_steady","  if (start_system_timestamp == SystemTime() ||\n      start_steady")]),
("V","start-swap",[(U,"ToSteadyTimestamp(timestamp_delta, start_system_timestamp)","ToSteadyTimestamp(-timestamp_delta, start_system_timestamp)")]),
("V","start-now",[(U,"recorder.ComputeCurrentSystemTimestamp(steady_now), steady_now}","recorder.ComputeCurrentSystemTimestamp(start_steady_timestamp), steady_now}")]),
("V","start-ignore",[(U,"  return std::tuple<SystemTime, SteadyTime>{start_system_timestamp,\n                                            start_steady_timestamp};","  return std::tuple<SystemTime, SteadyTime>{start_system_timestamp,\n                                            ToSteadyTimestamp(recorder.ComputeSystemSteadyTimestampDelta(), start_system_timestamp)};")]),
("Q","start-nested",[(U,"  if (start_system_timestamp == SystemTime()) {\n    auto","  const bool no_system = !(start_system_timestamp != SystemTime());\n  if (no_system) {\n    auto")]),
("Q","start-system-now",[(U,"recorder.ComputeCurrentSystemTimestamp(steady_now), steady_now}","SystemClock::now(), steady_now}")]),
("V","tie",[(S,"      tracer_->recorder(), options.start_system_timestamp,\n      options.start_steady_timestamp);","      tracer_->recorder(), options.start_system_timestamp,\n      SteadyTime{});")]),
("V","span-write-now",[(S,"WriteStartTimestamp(coded_stream_, start_timestamp);","WriteStartTimestamp(coded_stream_, std::chrono::system_clock::now());")]),
("V","span-start-reset",[(S,"  auto duration = finish_timestamp - start_steady_;","  auto duration = start_steady_ - finish_timestamp;")]),
("V","span-finish-now",[(S,"  if (finish_timestamp == SteadyTime()) {\n    finish","  if (finish_timestamp <= start_steady_) {\n    finish")]),
("Q","span-finish-cond",[(S,"  auto finish_timestamp = options.finish_steady_timestamp;\n  if (finish_timestamp == SteadyTime()) {\n    finish_timestamp = SteadyClock::now();\n  }","  const auto finish_timestamp = options.finish_steady_timestamp == SteadyTime()\n      ? SteadyClock::now() : options.finish_steady_timestamp;")]),
("V","legacy-nanos",[(LS,"duration_cast<std::chrono::microseconds>(duration)","duration_cast<std::chrono::nanoseconds>(duration)")]),
("V","legacy-no-duration",[(LS,"  span_.set_duration_micros(\n      std::chrono::duration_cast<std::chrono::microseconds>(duration).count());","  (void)duration;")]),
("V","wd-millis",[(TS,"duration_cast<std::chrono::microseconds>(duration)","duration_cast<std::chrono::milliseconds>(duration)")]),
("V","timeval",[(CC,"num_microseconds % microseconds_in_second","num_microseconds % 1000")]),
("V","timeval-unit",[(CC,"microseconds_in_second = 1000000","microseconds_in_second = 100000")]),
("V","pbts",[(CU,"nanos % nanosPerSec","nanos % 100000000")]),
("Q","pbts-sub",[(CU,"  return {static_cast<uint64_t>(nanos / nanosPerSec),\n          static_cast<uint32_t>(nanos % nanosPerSec)};","  const auto seconds = static_cast<uint64_t>(nanos) / nanosPerSec;\n  return {seconds, static_cast<uint32_t>(static_cast<uint64_t>(nanos) - seconds * nanosPerSec)};")]),
("V","pbts-swap",[(CU,"  return {static_cast<uint64_t>(nanos / nanosPerSec),\n          static_cast<uint32_t>(nanos % nanosPerSec)};","  return {static_cast<uint64_t>(nanos % nanosPerSec), static_cast<uint32_t>(nanos / nanosPerSec)};")]),
("V","cache",[(SI,"timestamp_delta_ = ComputeSystemSteadyTimestampDelta();","timestamp_delta_ = timestamp_delta_ / 2 + ComputeSystemSteadyTimestampDelta() / 2;")]),
("Q","cache-store",[(SI,"timestamp_delta_ = ComputeSystemSteadyTimestampDelta();","const auto delta = ComputeSystemSteadyTimestampDelta();\n  timestamp_delta_.store(delta, std::memory_order_relaxed);")]),
]
