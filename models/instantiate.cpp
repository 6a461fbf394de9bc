// Instantiates every header-only component of /repo that no compiled unit instantiates in full, with opaque
// element types and callbacks, so that the analysed program contains the template code itself.
#include <array>
#include <chrono>
#include <cstdint>
#include <string>
#include "common/atomic_unique_ptr.h"
#include "common/circular_buffer.h"
#include "common/circular_buffer_range.h"
#include "common/direct_coded_output_stream.h"
#include "common/condition_variable_wrapper.h"
#include "common/fast_random_number_generator.h"
#include "common/flat_map.h"
#include "common/function_ref.h"
#include "common/in_memory_stream.h"
#include "common/random.h"
#include "common/spin_lock_mutex.h"
#include "network/event.h"
#include "network/event_base.h"
#include "network/timer_event.h"
#include "recorder/metrics_tracker.h"
#include "tracer/counting_metrics_observer.h"

namespace verif {
struct Elem {
  ~Elem();
  int x;
};
struct Key {
  Key();
  Key(Key&&);
  Key& operator=(Key&&);
  ~Key();
  int k;
};
bool operator<(const Key&, const Key&);
bool operator==(const Key&, const Key&);
struct Val {
  Val();
  Val(Val&&);
  Val& operator=(Val&&);
  ~Val();
  int v;
};
bool visit(Elem&);
void take(lightstep::CircularBufferRange<lightstep::AtomicUniquePtr<Elem>>&) noexcept;
bool cb_int(void* data, int size);
struct Target {
  void OnTimer() noexcept;
  void OnEvent(lightstep::FileDescriptor, short);
};
}  // namespace verif

template class lightstep::AtomicUniquePtr<verif::Elem>;
template class lightstep::CircularBuffer<verif::Elem>;
template class lightstep::CircularBufferRange<verif::Elem>;
template class lightstep::FlatMap<verif::Key, verif::Val>;

namespace verif {
// member templates
void inst_consume(lightstep::CircularBuffer<Elem>& b, size_t n) {
  b.Consume(n, [](lightstep::CircularBufferRange<lightstep::AtomicUniquePtr<Elem>>& r) noexcept { take(r); });
}
bool inst_foreach(const lightstep::CircularBufferRange<Elem>& r) {
  return r.ForEach([](Elem& e) { return visit(e); });
}
lightstep::CircularBufferRange<const Elem> inst_convert(const lightstep::CircularBufferRange<Elem>& r) { return r; }
lightstep::FlatMap<Key, Val>::iterator inst_find(const lightstep::FlatMap<Key, Val>& m, const Key& k) {
  return m.find(k);
}
bool inst_function_ref(void* d, int n) {
  auto f = [](void* a, int b) { return cb_int(a, b); };
  lightstep::FunctionRef<bool(void*, int)> r{f};
  return r(d, n);
}
bool inst_function_ref_ptr(void* d, int n) {
  lightstep::FunctionRef<bool(void*, int)> r{&cb_int};
  return r(d, n);
}
bool inst_function_ref_bool(lightstep::FunctionRef<bool(void*, int)> r) { return static_cast<bool>(r); }
uint64_t inst_generate_id() { return lightstep::GenerateId(); }
std::array<uint64_t, 3> inst_generate_ids() { return lightstep::GenerateIds<3>(); }
std::chrono::milliseconds inst_random_duration(std::chrono::milliseconds a, std::chrono::milliseconds b) {
  return lightstep::GenerateRandomDuration(a, b);
}
uint64_t inst_rng(lightstep::FastRandomNumberGenerator& g) { return g(); }
void inst_seed(lightstep::FastRandomNumberGenerator& g, std::array<uint32_t, 4>& a) {
  struct S {
    std::array<uint32_t, 4>& a;
    void generate(uint32_t* b, uint32_t* e);
  } s{a};
  (void)s;
}
void inst_spin(lightstep::SpinLockMutex& m) {
  m.lock();
  m.unlock();
}
bool inst_spin_guard(lightstep::SpinLockMutex& m, Elem& e) {
  lightstep::SpinLockGuard g{m};
  return visit(e);
}
void inst_varint(lightstep::DirectCodedOutputStream& s, uint64_t x) { lightstep::WriteBigVarint64(s, x); }
void inst_tag(lightstep::DirectCodedOutputStream& s, uint32_t x) { s.WriteTag(x); }
void inst_varint32(lightstep::DirectCodedOutputStream& s, uint32_t x) { s.WriteVarint32(x); }
void inst_varint64(lightstep::DirectCodedOutputStream& s, uint64_t x) { s.WriteVarint64(x); }
void inst_raw(lightstep::DirectCodedOutputStream& s, const void* d, size_t n) { s.WriteRaw(d, n); }
lightstep::Event::Callback inst_timer_callback() { return lightstep::MakeTimerCallback<Target, &Target::OnTimer>(); }
lightstep::Event::Callback inst_event_callback() { return lightstep::MakeEventCallback<Target, &Target::OnEvent>(); }
lightstep::TimerEvent inst_timer(const lightstep::EventBase& b, std::chrono::milliseconds d,
                                 lightstep::Event::Callback cb, void* c) {
  return lightstep::TimerEvent{b, d, cb, c};
}
void inst_on_timeout(lightstep::EventBase& b, std::chrono::milliseconds d, lightstep::Event::Callback cb, void* c) {
  b.OnTimeout(d, cb, c);
}
void inst_dropped(lightstep::MetricsTracker& t, int n) { t.OnSpansDropped(n); }
int inst_num_dropped(const lightstep::MetricsTracker& t) { return t.num_dropped_spans(); }
lightstep::MetricsObserver* inst_counting() { return new lightstep::CountingMetricsObserver; }
lightstep::ConditionVariableWrapper* inst_cond() { return new lightstep::StandardConditionVariableWrapper; }
}  // namespace verif
