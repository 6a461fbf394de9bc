J = "src/recorder/stream_recorder/satellite_connection.cpp"
def R(a, b): return [(J, a, b)]
RETRY = "  streamer_.event_base().OnTimeout(\n      streamer_.recorder_options().satellite_failure_retry_period,\n      MakeTimerCallback<SatelliteConnection, &SatelliteConnection::Connect>(),\n      static_cast<void*>(this));\n"
M = [
 ("V", "flush-no-handle", R("Error(\"Flush failed: \", e.what());\n  HandleFailure();", "Error(\"Flush failed: \", e.what());")),
 ("V", "connect-no-handle", R("Error(\"Connect failed: \", e.what());\n  HandleFailure();", "Error(\"Connect failed: \", e.what());")),
 ("V", "keep-socket", R("  socket_ = Socket{InvalidSocket};\n", "")),
 ("V", "keep-read-event", R("  read_event_ = Event{};\n", "")),
 ("V", "keep-write-event", R("  write_event_ = Event{};\n", "")),
 ("V", "keep-timer", R("  reconnect_timer_.Remove();\n", "")),
 ("V", "keep-shutdown-timer", R("  graceful_shutdown_timeout_.Remove();\n", "")),
 ("V", "keep-writable", R("  writable_ = false;\n  connection_stream_", "  connection_stream_")),
 ("V", "keep-stream", R("  connection_stream_.Reset();\n", "")),
 ("V", "keep-parser", R("  status_line_parser_.Reset();\n", "")),
 ("V", "no-retry", R(RETRY, "")),
 ("V", "two-retries", R(RETRY, RETRY + RETRY)),
 ("V", "retry-in-shutdown", R("    // if we failed during shutdown, don't try to reconnect\n    was_shutdown_ = true;\n    return;\n", "    was_shutdown_ = true;\n")),
 ("V", "connect-in-shutdown", R("    // don't establish new connections during shutdown\n    was_shutdown_ = true;\n    return;\n", "    was_shutdown_ = true;\n")),
 ("V", "no-shutdown-note", R("    // break the reconnection cycle\n    was_shutdown_ = true;\n", "")),
 ("V", "no-read-event", R("  read_event_.Add(nullptr);\n\n  write_event_ =", "  write_event_ =")),
 ("V", "no-write-wait", R("  write_event_.Add(streamer_.recorder_options().satellite_write_timeout);\n} catch", "} catch")),
 ("V", "no-reconnect-timer", R("  ScheduleReconnect();\n\n", "\n")),
 ("V", "read-not-rearmed", R("    return read_event_.Add(nullptr);\n", "    return;\n")),
 ("V", "partial-not-rearmed", R("    write_event_.Add(streamer_.recorder_options().satellite_write_timeout);\n    streamer_.logger().Info(\"Flushed partially", "    streamer_.logger().Info(\"Flushed partially")),
 ("V", "status-ignored", R("                               status_line_parser_.reason());\n      return OnSocketError();\n", "                               status_line_parser_.reason());\n      return;\n")),
 ("V", "socket-error-ignored", R("           GetErrorCodeMessage(error_code));\n  return OnSocketError();", "           GetErrorCodeMessage(error_code));\n")),
 ("V", "timeout-ignored", R("    streamer_.logger().Error(\"Satellite connection timed out\");\n    return OnSocketError();\n", "    streamer_.logger().Error(\"Satellite connection timed out\");\n    return;\n")),
 ("V", "wrong-timer", R("&SatelliteConnection::InitiateReconnect>()", "&SatelliteConnection::GracefulShutdownTimeout>()")),
 ("V", "no-graceful-timer", R("  graceful_shutdown_timeout_.Add(\n      streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);\n} catch", "} catch")),
 ("V", "flush-failed-twice", R("    if (socket_.file_descriptor() == InvalidSocket) {\n      // Flush failed, and the failure has already been handled.\n      return;\n    }\n", "")),
 ("V", "connect-before-free", R("  FreeSocket();\n  Connect();\n} catch", "  Connect();\n  FreeSocket();\n} catch")),
 ("V", "wrong-flag", R("  if (flushed_everything) {\n    writable_ = true;", "  if (flushed_everything) {\n    writable_ = false;")),
 ("Q", "order", R("  socket_ = Socket{InvalidSocket};\n  read_event_ = Event{};\n  write_event_ = Event{};\n", "  read_event_ = Event{};\n  write_event_ = Event{};\n  socket_ = Socket{InvalidSocket};\n")),
 ("Q", "reset-first", R("  writable_ = false;\n  connection_stream_.Reset();\n  status_line_parser_.Reset();\n", "  status_line_parser_.Reset();\n  connection_stream_.Reset();\n  writable_ = false;\n")),
 ("Q", "else", R("    // if we failed during shutdown, don't try to reconnect\n    was_shutdown_ = true;\n    return;\n  }\n" + RETRY, "    was_shutdown_ = true;\n  } else {\n" + RETRY + "  }\n")),
 ("Q", "flush-negated", R("  if (flushed_everything) {\n    writable_ = true;\n", "  writable_ = flushed_everything;\n  if (flushed_everything) {\n")),
 ("Q", "release-inline", R("  FreeSocket();\n  Connect();\n} catch", "  {\n    SatelliteConnection* self = this;\n    self->FreeSocket();\n  }\n  Connect();\n} catch")),
 ("Q", "status-one-if", R("    if (!status_line_parser_.completed()) {\n      streamer_.logger().Error(\"No status line from satellite response\");\n      return OnSocketError();\n    }\n    if (status_line_parser_.status_code() != 200) {", "    if (!status_line_parser_.completed() ||\n        status_line_parser_.status_code() != 200) {")),
 ("Q", "shutdown-folded", R("  if (is_shutting_down_) {\n    return;\n  }\n  is_shutting_down_ = true;\n  InitiateStreamShutdown();\n", "  if (!is_shutting_down_) {\n    is_shutting_down_ = true;\n    InitiateStreamShutdown();\n  }\n")),
 ("Q", "writable-const", R("  if (writable_) {\n    Flush();\n    if (socket_", "  const bool can_write = writable_;\n  if (can_write) {\n    Flush();\n    if (socket_")),
]
