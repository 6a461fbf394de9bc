#pragma once
// Minimal stand-in for the few grpc++ names /repo uses; for type checking only.
#include <chrono>
#include <memory>
#include <string>
namespace grpc {
enum StatusCode { OK = 0, CANCELLED = 1, UNKNOWN = 2, INVALID_ARGUMENT = 3, DEADLINE_EXCEEDED = 4,
                  RESOURCE_EXHAUSTED = 8, UNIMPLEMENTED = 12, INTERNAL = 13, UNAVAILABLE = 14 };
class Status {
 public:
  bool ok() const;
  StatusCode error_code() const;
  std::string error_message() const;
};
class ChannelCredentials {};
class ChannelInterface {};
using Channel = ChannelInterface;
struct SslCredentialsOptions { std::string pem_root_certs, pem_private_key, pem_cert_chain; };
std::shared_ptr<ChannelCredentials> InsecureChannelCredentials();
std::shared_ptr<ChannelCredentials> SslCredentials(const SslCredentialsOptions&);
std::shared_ptr<Channel> CreateChannel(const std::string&, const std::shared_ptr<ChannelCredentials>&);
class ClientContext {
 public:
  ClientContext();
  ~ClientContext();
  void set_fail_fast(bool);
  void set_deadline(std::chrono::system_clock::time_point);
};
}
