From 7f867ca0f364cde4dbcf563d89334bf6d0186caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 01/16] fix: don't offer a fragment of a ChainedStream nothing
 was written to

---
 src/common/chained_stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/chained_stream.cpp b/src/common/chained_stream.cpp
index 4a7fb92..0c40af4 100644
--- a/src/common/chained_stream.cpp
+++ b/src/common/chained_stream.cpp
@@ -72,7 +72,7 @@ bool ChainedStream::SegmentForEachFragment(Callback callback) const noexcept {
   assert(output_closed_);
   assert(fragment_index_ >= 0 && fragment_index_ <= num_blocks_);
 
-  if (num_blocks_ == 0) {
+  if (num_bytes_written_ == 0) {
     return true;
   }
 
-- 
2.43.0


From 0b864794ef0ea152cd822efb834cbb4452b53ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:36 +0000
Subject: [PATCH 02/16] fix: count the header and metrics fragments of a
 ReportRequest

---
 src/recorder/serialization/report_request.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/recorder/serialization/report_request.cpp b/src/recorder/serialization/report_request.cpp
index bfb9e70..3e80096 100644
--- a/src/recorder/serialization/report_request.cpp
+++ b/src/recorder/serialization/report_request.cpp
@@ -8,6 +8,7 @@ ReportRequest::ReportRequest(std::shared_ptr<const std::string> header,
                              int num_dropped_spans)
     : header_{std::move(header)} {
   num_bytes_ = static_cast<int>(header_->size());
+  num_fragments_ = 1;
   if (num_dropped_spans == 0) {
     return;
   }
@@ -16,6 +17,7 @@ ReportRequest::ReportRequest(std::shared_ptr<const std::string> header,
   metrics->set_num_dropped_spans(num_dropped_spans);
   metrics_fragment_ = metrics->MakeFragment();
   num_bytes_ += metrics_fragment_.second;
+  ++num_fragments_;
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From 30667f505e998bad54ba3491e9d3cfe1bcdf8799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:30 +0000
Subject: [PATCH 03/16] fix: do not compare the padding of IPv4 addresses

---
 src/network/ip_address.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/network/ip_address.cpp b/src/network/ip_address.cpp
index b082373..bf7fc54 100644
--- a/src/network/ip_address.cpp
+++ b/src/network/ip_address.cpp
@@ -88,9 +88,10 @@ bool operator==(const IpAddress& lhs, const IpAddress& rhs) noexcept {
     return false;
   }
   if (lhs.family() == AF_INET) {
-    return std::memcmp(static_cast<const void*>(&lhs.ipv4_address()),
-                       static_cast<const void*>(&rhs.ipv4_address()),
-                       sizeof(lhs.ipv4_address())) == 0;
+    // Compare the fields so as to ignore the padding in sin_zero.
+    return lhs.ipv4_address().sin_port == rhs.ipv4_address().sin_port &&
+           lhs.ipv4_address().sin_addr.s_addr ==
+               rhs.ipv4_address().sin_addr.s_addr;
   }
   if (lhs.family() == AF_INET6) {
     return std::memcmp(static_cast<const void*>(&lhs.ipv6_address()),
-- 
2.43.0


From 192059f239c02e1a719c35bf4bb410e5d2d757ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:50 +0000
Subject: [PATCH 04/16] fix: base64 decode indexes its table with the unsigned
 byte

A byte of 0x80 or more is negative as a char, so converting it to uint32_t
gave an index near 2^32 and read far outside REVERSE_LOOKUP_TABLE. The input
comes from incoming propagation headers.
---
 3rd_party/base64/src/base64.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/3rd_party/base64/src/base64.cpp b/3rd_party/base64/src/base64.cpp
index aaf9f19..eb8b433 100644
--- a/3rd_party/base64/src/base64.cpp
+++ b/3rd_party/base64/src/base64.cpp
@@ -52,14 +52,14 @@ std::string Base64::decode(const char* input, size_t length) {
     // make 8 bits char from it.
     // Use conversion table to map char to decoded value (value is between 0 and 63 inclusive for a
     // valid character).
-    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read])];
-    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 1])];
+    const unsigned char a = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read])];
+    const unsigned char b = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 1])];
     if (a == 64 || b == 64) {
       // Input contains an invalid character.
       return {};
     }
     result.push_back(a << 2 | b >> 4);
-    const unsigned char c = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 2])];
+    const unsigned char c = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 2])];
 
     // Decoded value 64 means invalid character unless we already know it is a valid padding.
     // If so, following characters are all padding.
@@ -78,7 +78,7 @@ std::string Base64::decode(const char* input, size_t length) {
     // Take last 4 bits from 2nd converted char and 4 first bits from 3rd converted char.
     result.push_back(b << 4 | c >> 2);
 
-    const unsigned char d = REVERSE_LOOKUP_TABLE[static_cast<uint32_t>(input[cur_read + 3])];
+    const unsigned char d = REVERSE_LOOKUP_TABLE[static_cast<uint8_t>(input[cur_read + 3])];
     if (d == 64) {
       if (first_padding_index != cur_read + 3) {
         // Input contains an invalid character.
-- 
2.43.0


From 93e7933bffdd534df2349fed12fbcfdab6de6d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:50 +0000
Subject: [PATCH 05/16] fix: hex conversion indexes its table with the unsigned
 byte

A byte of 0x80 or more is negative as a char, so it indexed HexTable outside
its 256 entries instead of being rejected as an invalid digit.
---
 src/common/hex_conversion.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/hex_conversion.cpp b/src/common/hex_conversion.cpp
index 9da5855..f74720f 100644
--- a/src/common/hex_conversion.cpp
+++ b/src/common/hex_conversion.cpp
@@ -39,7 +39,7 @@ static opentracing::expected<T> HexToUintImpl(const char* i,
                                               const char* last) noexcept {
   T result = 0;
   for (; i != last; ++i) {
-    auto value = HexTable[*i];
+    auto value = HexTable[static_cast<unsigned char>(*i)];
     if (value == Nil) {
       return opentracing::make_unexpected(
           std::make_error_code(std::errc::invalid_argument));
-- 
2.43.0


From 0a26a81c898626aadfd6c9643f3bc0fdcc392562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:28 +0000
Subject: [PATCH 06/16] fix: report exhausted memory while extracting a trace
 or cloud trace context

The callbacks passed to ForeachKey are noexcept but copy keys and values, so
running out of memory ended the process. Turn it into an error, as
MultiheaderPropagator does.
---
 .../propagation/cloud_trace_propagator.cpp    | 35 ++++++++++-------
 .../propagation/trace_context_propagator.cpp  | 39 +++++++++++--------
 2 files changed, 42 insertions(+), 32 deletions(-)

diff --git a/src/tracer/propagation/cloud_trace_propagator.cpp b/src/tracer/propagation/cloud_trace_propagator.cpp
index 1daecd6..b27a296 100644
--- a/src/tracer/propagation/cloud_trace_propagator.cpp
+++ b/src/tracer/propagation/cloud_trace_propagator.cpp
@@ -78,23 +78,28 @@ opentracing::expected<bool> CloudTracePropagator::ExtractSpanContextImpl(
           carrier.ForeachKey([&](opentracing::string_view key,
                                  opentracing::string_view
                                      value) noexcept->opentracing::expected<void> {
-            if (key_compare(key, PropagationSingleKey)) {
-              auto was_successful = this->ParseCloudTrace(value, trace_context);
-              if (!was_successful) {
-                return opentracing::make_unexpected(was_successful.error());
+            try {
+              if (key_compare(key, PropagationSingleKey)) {
+                auto was_successful = this->ParseCloudTrace(value, trace_context);
+                if (!was_successful) {
+                  return opentracing::make_unexpected(was_successful.error());
+                }
+                parent_header_found = true;
+              } else if (key.length() > PrefixBaggage.size() &&
+                         key_compare(opentracing::string_view{key.data(),
+                                                              PrefixBaggage.size()},
+                                     PrefixBaggage)) {
+                baggage.insert(BaggageProtobufMap::value_type(
+                    ToLower(
+                        opentracing::string_view{key.data() + PrefixBaggage.size(),
+                                                 key.size() - PrefixBaggage.size()}),
+                    value));
               }
-              parent_header_found = true;
-            } else if (key.length() > PrefixBaggage.size() &&
-                       key_compare(opentracing::string_view{key.data(),
-                                                            PrefixBaggage.size()},
-                                   PrefixBaggage)) {
-              baggage.insert(BaggageProtobufMap::value_type(
-                  ToLower(
-                      opentracing::string_view{key.data() + PrefixBaggage.size(),
-                                               key.size() - PrefixBaggage.size()}),
-                  value));
+              return {};
+            } catch (const std::bad_alloc&) {
+              return opentracing::make_unexpected(
+                  std::make_error_code(std::errc::not_enough_memory));
             }
-            return {};
           });
       if (!result) {
         return opentracing::make_unexpected(result.error());
diff --git a/src/tracer/propagation/trace_context_propagator.cpp b/src/tracer/propagation/trace_context_propagator.cpp
index e64512c..f93c6ff 100644
--- a/src/tracer/propagation/trace_context_propagator.cpp
+++ b/src/tracer/propagation/trace_context_propagator.cpp
@@ -42,25 +42,30 @@ static opentracing::expected<bool> ExtractSpanContextImpl(
       carrier.ForeachKey([&](opentracing::string_view key,
                              opentracing::string_view
                                  value) noexcept->opentracing::expected<void> {
-        if (key_compare(key, TraceParentHeaderKey)) {
-          auto was_successful = ParseTraceContext(value, trace_context);
-          if (!was_successful) {
-            return opentracing::make_unexpected(was_successful.error());
+        try {
+          if (key_compare(key, TraceParentHeaderKey)) {
+            auto was_successful = ParseTraceContext(value, trace_context);
+            if (!was_successful) {
+              return opentracing::make_unexpected(was_successful.error());
+            }
+            parent_header_found = true;
+          } else if (key_compare(key, TraceStateHeaderKey)) {
+            trace_state.assign(value.data(), value.size());
+          } else if (key.length() > PrefixBaggage.size() &&
+                     key_compare(opentracing::string_view{key.data(),
+                                                          PrefixBaggage.size()},
+                                 PrefixBaggage)) {
+            baggage.insert(BaggageProtobufMap::value_type(
+                ToLower(
+                    opentracing::string_view{key.data() + PrefixBaggage.size(),
+                                             key.size() - PrefixBaggage.size()}),
+                value));
           }
-          parent_header_found = true;
-        } else if (key_compare(key, TraceStateHeaderKey)) {
-          trace_state.assign(value.data(), value.size());
-        } else if (key.length() > PrefixBaggage.size() &&
-                   key_compare(opentracing::string_view{key.data(),
-                                                        PrefixBaggage.size()},
-                               PrefixBaggage)) {
-          baggage.insert(BaggageProtobufMap::value_type(
-              ToLower(
-                  opentracing::string_view{key.data() + PrefixBaggage.size(),
-                                           key.size() - PrefixBaggage.size()}),
-              value));
+          return {};
+        } catch (const std::bad_alloc&) {
+          return opentracing::make_unexpected(
+              std::make_error_code(std::errc::not_enough_memory));
         }
-        return {};
       });
   if (!result) {
     return opentracing::make_unexpected(result.error());
-- 
2.43.0


From 6af7d44467ef87d17ce2a5f908eb8dc5c07e0eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:59 +0000
Subject: [PATCH 07/16] fix: let constructors that allocate report exhausted
 memory

They were noexcept, so an allocation that fails (a buffer of
max_buffered_spans elements, say) ended the process instead of reaching the
handlers in MakeLightStepTracer.
---
 src/common/circular_buffer.h             | 2 +-
 src/tracer/legacy/legacy_tracer_impl.cpp | 2 +-
 src/tracer/legacy/legacy_tracer_impl.h   | 2 +-
 src/tracer/tracer_impl.cpp               | 2 +-
 src/tracer/tracer_impl.h                 | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/common/circular_buffer.h b/src/common/circular_buffer.h
index e198787..76cec26 100644
--- a/src/common/circular_buffer.h
+++ b/src/common/circular_buffer.h
@@ -15,7 +15,7 @@ namespace lightstep {
 template <class T>
 class CircularBuffer {
  public:
-  explicit CircularBuffer(size_t max_size) noexcept
+  explicit CircularBuffer(size_t max_size)
       : data_{new AtomicUniquePtr<T>[max_size + 1]}, capacity_{max_size + 1} {}
 
   /**
diff --git a/src/tracer/legacy/legacy_tracer_impl.cpp b/src/tracer/legacy/legacy_tracer_impl.cpp
index ba36c94..98d06c6 100644
--- a/src/tracer/legacy/legacy_tracer_impl.cpp
+++ b/src/tracer/legacy/legacy_tracer_impl.cpp
@@ -53,7 +53,7 @@ opentracing::expected<std::unique_ptr<opentracing::SpanContext>> ExtractImpl(
 //------------------------------------------------------------------------------
 LegacyTracerImpl::LegacyTracerImpl(
     PropagationOptions&& propagation_options,
-    std::unique_ptr<Recorder>&& recorder) noexcept
+    std::unique_ptr<Recorder>&& recorder)
     : logger_{std::make_shared<Logger>()},
       propagation_options_{std::move(propagation_options)},
       recorder_{std::move(recorder)} {}
diff --git a/src/tracer/legacy/legacy_tracer_impl.h b/src/tracer/legacy/legacy_tracer_impl.h
index 3187b8b..73de63d 100644
--- a/src/tracer/legacy/legacy_tracer_impl.h
+++ b/src/tracer/legacy/legacy_tracer_impl.h
@@ -12,7 +12,7 @@ class LegacyTracerImpl final
       public std::enable_shared_from_this<LegacyTracerImpl> {
  public:
   LegacyTracerImpl(PropagationOptions&& propagation_options,
-                   std::unique_ptr<Recorder>&& recorder) noexcept;
+                   std::unique_ptr<Recorder>&& recorder);
 
   LegacyTracerImpl(std::shared_ptr<Logger> logger,
                    PropagationOptions&& propagation_options,
diff --git a/src/tracer/tracer_impl.cpp b/src/tracer/tracer_impl.cpp
index 1e8373a..8782938 100644
--- a/src/tracer/tracer_impl.cpp
+++ b/src/tracer/tracer_impl.cpp
@@ -54,7 +54,7 @@ ExtractImpl(const PropagationOptions& propagation_options,
 // constructor
 //--------------------------------------------------------------------------------------------------
 TracerImpl::TracerImpl(PropagationOptions&& propagation_options,
-                       std::unique_ptr<Recorder>&& recorder) noexcept
+                       std::unique_ptr<Recorder>&& recorder)
     : logger_{std::make_shared<Logger>()},
       propagation_options_{std::move(propagation_options)},
       recorder_{std::move(recorder)} {}
diff --git a/src/tracer/tracer_impl.h b/src/tracer/tracer_impl.h
index e650fa9..0f49217 100644
--- a/src/tracer/tracer_impl.h
+++ b/src/tracer/tracer_impl.h
@@ -14,7 +14,7 @@ class TracerImpl final : public LightStepTracer,
                          public std::enable_shared_from_this<TracerImpl> {
  public:
   TracerImpl(PropagationOptions&& propagation_options,
-             std::unique_ptr<Recorder>&& recorder) noexcept;
+             std::unique_ptr<Recorder>&& recorder);
 
   TracerImpl(std::shared_ptr<Logger> logger,
              PropagationOptions&& propagation_options,
-- 
2.43.0


From b1fc4fd8e0c6d1aa8607fec99ed03de865fc516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 08/16] fix: keep the default satellite endpoints when none are
 configured

---
 src/tracer/json_options.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index 1702dd7..3ce5cb7 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -97,7 +97,9 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
 
   options.use_stream_recorder = tracer_configuration.use_stream_recorder();
 
-  options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);
+  if (!tracer_configuration.satellite_endpoints().empty()) {
+    options.satellite_endpoints = GetSatelliteEndpoints(tracer_configuration);
+  }
 
   options.verbose = tracer_configuration.verbose();
 
-- 
2.43.0


From f8b878672e8448bfd23a03dc8a88955439cdb278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:06 +0000
Subject: [PATCH 09/16] fix: apply ssl_root_certificates from the JSON
 configuration

---
 src/tracer/json_options.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tracer/json_options.cpp b/src/tracer/json_options.cpp
index 3ce5cb7..a56f608 100644
--- a/src/tracer/json_options.cpp
+++ b/src/tracer/json_options.cpp
@@ -103,6 +103,11 @@ opentracing::expected<LightStepTracerOptions> MakeTracerOptions(
 
   options.verbose = tracer_configuration.verbose();
 
+  if (!tracer_configuration.ssl_root_certificates().empty()) {
+    options.ssl_root_certificates =
+        tracer_configuration.ssl_root_certificates();
+  }
+
   options.propagation_modes.reserve(
       tracer_configuration.propagation_modes().size());
   for (auto& propagation_mode : tracer_configuration.propagation_modes()) {
-- 
2.43.0


From c7e50ea4eba75525d29e7522aef7254136eabf09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:57 +0000
Subject: [PATCH 10/16] fix: do not reconnect twice when flushing fails while
 closing a satellite stream

---
 src/recorder/stream_recorder/satellite_connection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 3ec8316..34a7eb7 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -172,6 +172,10 @@ void SatelliteConnection::InitiateReconnect() noexcept try {
   connection_stream_.Shutdown();
   if (writable_) {
     Flush();
+    if (socket_.file_descriptor() == InvalidSocket) {
+      // Flush failed, and a reconnect has already been scheduled.
+      return;
+    }
   }
   graceful_shutdown_timeout_.Add(
       streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
-- 
2.43.0


From 258577ea090ea526a30e1a827158c2e6f111fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:57 +0000
Subject: [PATCH 11/16] fix: neither reconnect nor retry a satellite connection
 while shutting down

---
 .../stream_recorder/satellite_connection.cpp  | 23 +++++++++++++++----
 .../stream_recorder/satellite_connection.h    |  2 ++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/recorder/stream_recorder/satellite_connection.cpp b/src/recorder/stream_recorder/satellite_connection.cpp
index 34a7eb7..9bf963f 100644
--- a/src/recorder/stream_recorder/satellite_connection.cpp
+++ b/src/recorder/stream_recorder/satellite_connection.cpp
@@ -79,8 +79,11 @@ bool SatelliteConnection::Flush() noexcept try {
 // InitiateShutdown
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::InitiateShutdown() noexcept {
-  InitiateReconnect();
+  if (is_shutting_down_) {
+    return;
+  }
   is_shutting_down_ = true;
+  InitiateStreamShutdown();
 }
 
 //--------------------------------------------------------------------------------------------------
@@ -94,6 +97,11 @@ bool SatelliteConnection::ready() const noexcept {
 // Connect
 //--------------------------------------------------------------------------------------------------
 void SatelliteConnection::Connect() noexcept try {
+  if (is_shutting_down_) {
+    // don't establish new connections during shutdown
+    was_shutdown_ = true;
+    return;
+  }
   auto endpoint = streamer_.endpoint_manager().RequestEndpoint();
   streamer_.logger().Info("Connecting to satellite on ip ", endpoint.first);
   socket_ = lightstep::Connect(endpoint.first);
@@ -163,24 +171,31 @@ void SatelliteConnection::ScheduleReconnect() {
 //--------------------------------------------------------------------------------------------------
 // InitiateReconnect
 //--------------------------------------------------------------------------------------------------
-void SatelliteConnection::InitiateReconnect() noexcept try {
+void SatelliteConnection::InitiateReconnect() noexcept {
   if (is_shutting_down_) {
     // If we're shutting down, then we've already scheduled a reconnect so do
     // nothing.
     return;
   }
+  InitiateStreamShutdown();
+}
+
+//--------------------------------------------------------------------------------------------------
+// InitiateStreamShutdown
+//--------------------------------------------------------------------------------------------------
+void SatelliteConnection::InitiateStreamShutdown() noexcept try {
   connection_stream_.Shutdown();
   if (writable_) {
     Flush();
     if (socket_.file_descriptor() == InvalidSocket) {
-      // Flush failed, and a reconnect has already been scheduled.
+      // Flush failed, and the failure has already been handled.
       return;
     }
   }
   graceful_shutdown_timeout_.Add(
       streamer_.recorder_options().satellite_graceful_stream_shutdown_timeout);
 } catch (const std::exception& e) {
-  streamer_.logger().Error("InitiateReconnect failed: ", e.what());
+  streamer_.logger().Error("InitiateStreamShutdown failed: ", e.what());
   return HandleFailure();
 }
 
diff --git a/src/recorder/stream_recorder/satellite_connection.h b/src/recorder/stream_recorder/satellite_connection.h
index abbf717..613c19f 100644
--- a/src/recorder/stream_recorder/satellite_connection.h
+++ b/src/recorder/stream_recorder/satellite_connection.h
@@ -71,6 +71,8 @@ class SatelliteConnection : private Noncopyable {
 
   void InitiateReconnect() noexcept;
 
+  void InitiateStreamShutdown() noexcept;
+
   void Reconnect() noexcept;
 
   void GracefulShutdownTimeout() noexcept;
-- 
2.43.0


From ce69e10824d93784b0c284575b3487f00962203b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:49 +0000
Subject: [PATCH 12/16] fix: let unanswered dns queries time out

A query for which no packet ever arrives was never retried nor reported as
failed, because the timer was only started after the first socket event.
---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index 3300220..26ca7de 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -123,9 +123,14 @@ AresDnsResolver::~AresDnsResolver() noexcept { ares_destroy(channel_); }
 // Resolve
 //--------------------------------------------------------------------------------------------------
 void AresDnsResolver::Resolve(const char* name, int family,
-                              DnsResolutionCallback& callback) noexcept {
+                              DnsResolutionCallback& callback) noexcept try {
   ares_gethostbyname(channel_, name, family, OnDnsResolution,
                      static_cast<void*>(&callback));
+
+  // Unanswered queries are only retried or given up from ares_process_fd.
+  UpdateTimer();
+} catch (const std::exception& e) {
+  logger_.Error("failed to set up ares timer: ", e.what());
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From 7d017d8350344584ee6a36694a4e608064ae8e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:49 +0000
Subject: [PATCH 13/16] fix: keep watching dns sockets after the first event

c-ares only reports changes of the state of a socket, so an event that is
removed after it occurred is never added again: the second packet on a socket
went unnoticed.
---
 src/network/ares_dns_resolver/ares_dns_resolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/network/ares_dns_resolver/ares_dns_resolver.cpp b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
index 26ca7de..6ccd5c0 100644
--- a/src/network/ares_dns_resolver/ares_dns_resolver.cpp
+++ b/src/network/ares_dns_resolver/ares_dns_resolver.cpp
@@ -142,7 +142,7 @@ void AresDnsResolver::OnSocketStateChange(FileDescriptor file_descriptor,
     socket_events_.erase(file_descriptor);
     return;
   }
-  short options = 0;
+  short options = EV_PERSIST;
   if (read == 1) {
     options |= EV_READ;
   }
-- 
2.43.0


From e045539aceb414007caadd3ad04a5320a98adc13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:46 +0000
Subject: [PATCH 14/16] fix: treat the recorder as active again after a fork

ShutdownWithTimeout returned at once without waiting for anything when the
recorder had been shut down before a fork: the event loop made after the fork
is active, but last_is_active_ was never set again.
---
 src/recorder/stream_recorder/stream_recorder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/recorder/stream_recorder/stream_recorder.cpp b/src/recorder/stream_recorder/stream_recorder.cpp
index 0bdaee6..433f03d 100644
--- a/src/recorder/stream_recorder/stream_recorder.cpp
+++ b/src/recorder/stream_recorder/stream_recorder.cpp
@@ -156,6 +156,11 @@ void StreamRecorder::PrepareForFork() noexcept {
 // OnForkedParent
 //--------------------------------------------------------------------------------------------------
 void StreamRecorder::OnForkedParent() noexcept {
+  {
+    // The new StreamRecorderImpl starts out active.
+    std::lock_guard<std::mutex> lock_guard{shutdown_mutex_};
+    last_is_active_ = true;
+  }
   stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
 }
 
@@ -169,6 +174,8 @@ void StreamRecorder::OnForkedChild() noexcept {
   span_buffer_.Clear();
   num_spans_consumed_ = span_buffer_.production_count();
   pending_flush_counter_ = 0;
+  shutdown_counter_ = 0;
+  last_is_active_ = true;
 
   stream_recorder_impl_.reset(new StreamRecorderImpl{*this});
 }
-- 
2.43.0


From 7b29d569e7f2dab7e275c86225102faec0290d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:32:29 +0000
Subject: [PATCH 15/16] fix: report a connection closed by its peer instead of
 raising SIGPIPE

---
 src/common/platform/network_unix.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/common/platform/network_unix.cpp b/src/common/platform/network_unix.cpp
index 4d3e32b..28a204a 100644
--- a/src/common/platform/network_unix.cpp
+++ b/src/common/platform/network_unix.cpp
@@ -8,6 +8,10 @@
 #include <sys/uio.h>
 #include <unistd.h>
 
+#ifndef MSG_NOSIGNAL
+#define MSG_NOSIGNAL 0
+#endif
+
 namespace lightstep {
 //--------------------------------------------------------------------------------------------------
 // IoVecMax
@@ -32,7 +36,12 @@ int Read(FileDescriptor socket, void* data, size_t size) noexcept {
 // WriteV
 //--------------------------------------------------------------------------------------------------
 int WriteV(FileDescriptor socket, const IoVec* iov, int iovcnt) noexcept {
-  return ::writev(socket, iov, iovcnt);
+  // Unlike writev, sendmsg can report a connection closed by its peer without
+  // raising SIGPIPE, which by default would terminate the process.
+  msghdr message{};
+  message.msg_iov = const_cast<IoVec*>(iov);
+  message.msg_iovlen = static_cast<decltype(message.msg_iovlen)>(iovcnt);
+  return static_cast<int>(::sendmsg(socket, &message, MSG_NOSIGNAL));
 }
 
 //--------------------------------------------------------------------------------------------------
-- 
2.43.0


From 5fa014d442bda5ccfb2f64500209c4aa1f5a4fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:21 +0000
Subject: [PATCH 16/16] fix: do not accept a trace without a span id because
 its trace id is given twice

---
 src/tracer/propagation/multiheader_propagator.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/tracer/propagation/multiheader_propagator.cpp b/src/tracer/propagation/multiheader_propagator.cpp
index 12632e1..f27dd78 100644
--- a/src/tracer/propagation/multiheader_propagator.cpp
+++ b/src/tracer/propagation/multiheader_propagator.cpp
@@ -3,7 +3,6 @@
 #include "common/hex_conversion.h"
 #include "common/utility.h"
 
-const int FieldCount = 2;
 const opentracing::string_view FalseStr = "false";
 const opentracing::string_view OneStr = "1";
 const opentracing::string_view ZeroStr = "0";
@@ -117,7 +116,8 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
     uint64_t& trace_id_low, uint64_t& span_id, bool& sampled,
     BaggageProtobufMap& baggage, const KeyCompare& key_compare) const {
   sampled = true;
-  int count = 0;
+  bool has_trace_id = false;
+  bool has_span_id = false;
   auto result =
       carrier.ForeachKey([&](opentracing::string_view key,
                              opentracing::string_view
@@ -128,7 +128,7 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
               return opentracing::make_unexpected(
                   opentracing::span_context_corrupted_error);
             }
-            ++count;
+            has_trace_id = true;
           } else if (key_compare(key, span_id_key_)) {
             auto span_id_maybe = HexToUint64(value);
             if (!span_id_maybe) {
@@ -136,7 +136,7 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
                   opentracing::span_context_corrupted_error);
             }
             span_id = *span_id_maybe;
-            ++count;
+            has_span_id = true;
           } else if (key_compare(key, sampled_key_)) {
             sampled = !(value == FalseStr || value == ZeroStr);
           } else if (key.length() > baggage_prefix_.size() &&
@@ -159,10 +159,10 @@ opentracing::expected<bool> MultiheaderPropagator::ExtractSpanContextImpl(
   if (!result) {
     return opentracing::make_unexpected(result.error());
   }
-  if (count == 0) {
+  if (!has_trace_id && !has_span_id) {
     return false;
   }
-  if (count > 0 && count != FieldCount) {
+  if (!has_trace_id || !has_span_id) {
     return opentracing::make_unexpected(
         opentracing::span_context_corrupted_error);
   }
-- 
2.43.0

