A = "src/network/ares_dns_resolver/ares_dns_resolver.cpp"; D = "src/recorder/stream_recorder/satellite_dns_resolution_manager.cpp"
def R(a, b, f=A): return [(f, a, b)]
TIMER = "  // Unanswered queries are only retried or given up from ares_process_fd.\n  UpdateTimer();\n"
M = [
 ("V", "no-timer", R(TIMER, "")),
 ("V", "no-timer-event", R("write_file_descriptor);\n  UpdateTimer();\n", "write_file_descriptor);\n")),
 ("V", "timer-first", R("  ares_process_fd(channel_, read_file_descriptor, write_file_descriptor);\n  UpdateTimer();\n", "  UpdateTimer();\n  ares_process_fd(channel_, read_file_descriptor, write_file_descriptor);\n")),
 ("V", "no-persist", R("short options = EV_PERSIST;", "short options = 0;")),
 ("V", "swapped", R("(what & EV_READ) != 0 ? file_descriptor", "(what & EV_WRITE) != 0 ? file_descriptor")),
 ("V", "write-not-watched", R("  if (write == 1) {\n    options |= EV_WRITE;\n  }\n", "  (void)write;\n")),
 ("V", "erase-or", R("if (read == 0 && write == 0)", "if (read == 0 || write == 0)")),
 ("V", "not-added", R("  event.Add(nullptr);\n", "")),
 ("V", "not-kept", R("  socket_events_[file_descriptor] = std::move(event);\n", "")),
 ("V", "missing-return", R("    return callback->OnDnsResolution(DnsResolution{}, {});\n", "    callback->OnDnsResolution(DnsResolution{}, {});\n    return callback->OnDnsResolution(DnsResolution{}, {});\n")),
 ("V", "dropped-null", R("    return callback->OnDnsResolution(DnsResolution{}, {});\n", "    return;\n")),
 ("V", "no-null-check", R("  if (hosts == nullptr) {\n    return callback->OnDnsResolution(DnsResolution{}, {});\n  }\n", "")),
 ("V", "error-hidden", R("DnsResolution{}, ares_strerror(status))", "DnsResolution{}, {})")),
 ("V", "ares-status-destroyed", R("  if (status != ARES_SUCCESS) {\n", "  if (status == ARES_EDESTRUCTION) {\n    return;\n  }\n  if (status != ARES_SUCCESS) {\n")),
 ("V", "no-refresh", R("  ScheduleRefresh();\n} catch", "} catch", D)),
 ("V", "error-no-retry", R("\": \", error_message);\n    return OnFailure();", "\": \", error_message);\n    return;", D)),
 ("V", "empty-no-retry", R("addresses for \", name_);\n    return OnFailure();", "addresses for \", name_);\n    return;", D)),
 ("V", "empty-accepted", R("  if (ip_addresses.empty()) {\n    logger_.Debug(\"Dns resolution returned no addresses for \", name_);\n    return OnFailure();\n  }\n", "", D)),
 ("V", "cleared-on-error", R("  if (!error_message.empty()) {\n", "  if (!error_message.empty()) {\n    ip_addresses_.clear();\n", D)),
 ("V", "catch-no-retry", R("Error(\"OnDnsResolution failed: \", e.what());\n  OnFailure();", "Error(\"OnDnsResolution failed: \", e.what());", D)),
 ("V", "twice", R("    on_ready_callback_();\n  }\n", "    on_ready_callback_();\n    ScheduleRefresh();\n  }\n", D)),
 ("V", "always-ready", R("  if (first_resolution) {\n    on_ready_callback_();\n  }\n", "  (void)first_resolution;\n  on_ready_callback_();\n", D)),
 ("V", "late-check", R("  bool first_resolution = ip_addresses_.empty();\n  ip_addresses_ = std::move(ip_addresses);\n", "  ip_addresses_ = std::move(ip_addresses);\n  bool first_resolution = ip_addresses_.empty();\n", D)),
 ("V", "other-family", R("  dns_resolver_->Resolve(name_, family_, *this);\n}\n\n//--------------------------------------------------------------------------------------------------\n// OnDnsResolution", "  dns_resolver_->Resolve(name_, AF_INET, *this);\n}\n\n//--------------------------------------------------------------------------------------------------\n// OnDnsResolution", D)),
 ("Q", "if-else", R("  if (status != ARES_SUCCESS) {\n    return callback->OnDnsResolution(DnsResolution{}, ares_strerror(status));\n  }\n  if (hosts == nullptr) {\n    return callback->OnDnsResolution(DnsResolution{}, {});\n  }\n  AresDnsResolution resolution{*hosts};\n  callback->OnDnsResolution(resolution, {});\n", "  if (status == ARES_SUCCESS) {\n    if (hosts != nullptr) {\n      AresDnsResolution resolution{*hosts};\n      callback->OnDnsResolution(resolution, {});\n    } else {\n      callback->OnDnsResolution(DnsResolution{}, {});\n    }\n  } else {\n    callback->OnDnsResolution(DnsResolution{}, ares_strerror(status));\n  }\n")),
 ("Q", "flags-ternary", R("  if (read == 1) {\n    options |= EV_READ;\n  }\n  if (write == 1) {\n    options |= EV_WRITE;\n  }\n", "  options |= read != 0 ? EV_READ : 0;\n  options |= write != 0 ? EV_WRITE : 0;\n")),
 ("Q", "processed-ifs", R("  auto read_file_descriptor =\n      (what & EV_READ) != 0 ? file_descriptor : ARES_SOCKET_BAD;\n", "  auto read_file_descriptor = ARES_SOCKET_BAD;\n  if (what & EV_READ) {\n    read_file_descriptor = file_descriptor;\n  }\n")),
 ("Q", "size-check", R("if (ip_addresses.empty())", "if (ip_addresses.size() == 0)", D)),
 ("Q", "swap", R("ip_addresses_ = std::move(ip_addresses);", "ip_addresses_.swap(ip_addresses);", D)),
 ("Q", "nested", R("  if (!error_message.empty()) {\n    logger_.Debug(\"Failed to resolve \", name_, \": \", error_message);\n    return OnFailure();\n  }\n", "  const bool failed = !error_message.empty();\n  if (failed) {\n    logger_.Debug(\"Failed to resolve \", name_, \": \", error_message);\n    OnFailure();\n    return;\n  }\n", D)),
 ("Q", "refresh-start", R("void SatelliteDnsResolutionManager::OnRefresh() noexcept {\n  dns_resolver_->Resolve(name_, family_, *this);\n", "void SatelliteDnsResolutionManager::OnRefresh() noexcept {\n  Start();\n", D)),
]
