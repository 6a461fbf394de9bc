// An arbitrary fragment stream: an opaque sequence of fragments handed to the callback until it returns false.
// Substituted for the virtual call when the users of the interface are analysed.
#include "common/fragment_input_stream.h"
#include "lightstep/buffer_chain.h"
namespace verif {
bool stream_more(const lightstep::FragmentInputStream* s) noexcept;
void* stream_data(const lightstep::FragmentInputStream* s) noexcept;
int stream_size(const lightstep::FragmentInputStream* s) noexcept;
bool stream_foreach(const lightstep::FragmentInputStream* s, lightstep::FragmentInputStream::Callback callback) noexcept {
  while (stream_more(s)) {
    void* d = stream_data(s);
    int n = stream_size(s);
    if (!callback(d, n)) return false;
  }
  return true;
}
bool chain_more(const lightstep::BufferChain* s) noexcept;
const void* chain_data(const lightstep::BufferChain* s) noexcept;
size_t chain_size(const lightstep::BufferChain* s) noexcept;
bool chain_foreach(const lightstep::BufferChain* s, lightstep::BufferChain::FragmentCallback callback, void* context) noexcept {
  while (chain_more(s)) {
    const void* d = chain_data(s);
    size_t n = chain_size(s);
    if (!callback(context, d, n)) return false;
  }
  return true;
}
}  // namespace verif
