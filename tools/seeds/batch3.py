S = {}
S["c09-varint-boundary"] = dict(property="C09", needs="a random id whose top eight bits are exactly 0x80",
 breaks="the hand-unrolled varint omits the continuation byte for values in [2^63, 2^63+2^56), so the id's varint runs into the following field",
 edits=[("src/common/direct_coded_output_stream.h", "    if (x >= 0x80) {", "    if (x > 0x80) {")],
 demo=r'''
#include "common/direct_coded_output_stream.h"
#include <cstdio>
#include <cstdint>
#include <vector>
using namespace lightstep;
int main() {
  std::vector<uint64_t> xs;
  for (int b = 0; b < 64; ++b) for (int d = -2; d <= 2; ++d) xs.push_back((1ull << b) + d);
  uint64_t r = 88172645463325252ull;
  for (int i = 0; i < 200000; ++i) { r ^= r << 13; r ^= r >> 7; r ^= r << 17; xs.push_back(r); }
  for (auto x : xs) {
    google::protobuf::uint8 buf[32] = {0};
    DirectCodedOutputStream s{buf};
    s.WriteBigVarint64(x);
    google::protobuf::io::CodedInputStream in{buf, static_cast<int>(s.data() - buf)};
    google::protobuf::uint64 y = 0;
    if (!in.ReadVarint64(&y) || y != x || in.CurrentPosition() != s.data() - buf) {
      std::printf("%llx read back as %llx\n", (unsigned long long)x, (unsigned long long)y);
      return 1;
    }
  }
}
''')
S["c09-fragment-grows-only"] = dict(property="C09", needs="a metrics message that is serialized twice, the second time with a smaller count",
 breaks="the fragment's buffer is only ever grown, so a shorter message is followed by left-over bytes of the previous one inside its fragment",
 edits=[("src/recorder/serialization/embedded_metrics_message.cpp", "  buffer_.resize(ComputeEmbeddedMessageSerializationSize(\n      collector::ReportRequest::kInternalMetricsFieldNumber, message_size));",
  "  auto fragment_size = ComputeEmbeddedMessageSerializationSize(\n      collector::ReportRequest::kInternalMetricsFieldNumber, message_size);\n  if (buffer_.size() < fragment_size) {\n    buffer_.resize(fragment_size);\n  }")],
 demo=r'''
#include "recorder/serialization/embedded_metrics_message.h"
#include <cstdio>
using namespace lightstep;
int main() {
  EmbeddedMetricsMessage m;
  for (int n : {300, 5, 20000, 1}) {
    m.set_num_dropped_spans(n);
    auto f = m.MakeFragment();
    collector::ReportRequest r;
    if (!r.ParseFromArray(f.first, f.second)) { std::printf("fragment for %d does not parse\n", n); return 1; }
    if (r.internal_metrics().counts_size() != 1 || r.internal_metrics().counts(0).int_value() != n) { std::printf("wrong count\n"); return 1; }
    if (static_cast<int>(r.ByteSizeLong()) != f.second) { std::printf("fragment has %d bytes\n", f.second); return 1; }
  }
}
''')
S["c20-child-reseed-once"] = dict(property="C20", needs="", breaks="", edits=[], demo="") if False else None
S = {k: v for k, v in S.items() if v}
