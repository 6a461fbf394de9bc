#pragma once
#include <grpc++/create_channel.h>
#include "lightstep-tracer-common/collector.pb.h"
namespace lightstep { namespace collector {
class CollectorService {
 public:
  class Stub {
   public:
    explicit Stub(const std::shared_ptr<grpc::ChannelInterface>&);
    grpc::Status Report(grpc::ClientContext*, const ReportRequest&, ReportResponse*);
  };
};
} }
