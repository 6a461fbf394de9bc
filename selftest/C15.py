SP="src/tracer/span.cpp"; SL="src/common/spin_lock_mutex.h"; AR="src/recorder/auto_recorder.cpp"; ARH="src/recorder/auto_recorder.h"; SR="src/recorder/stream_recorder/stream_recorder.cpp"; MR="src/recorder/manual_recorder.cpp"; FA="src/recorder/fork_aware_recorder.cpp"; MT="src/recorder/metrics_tracker.h"; LS="src/tracer/legacy/legacy_span.cpp"; SPH="src/tracer/span.h"
M=[
("V","spin-relaxed",[(SL,"test_and_set(std::memory_order_acquire)","test_and_set(std::memory_order_relaxed)")]),
("V","spin-unlock-relaxed",[(SL,"clear(std::memory_order_release)","clear(std::memory_order_relaxed)")]),
("V","spin-bounded",[(SL,"    while (locked_.test_and_set(std::memory_order_acquire)) {\n    }","    for (int i = 0; i < 100000 && locked_.test_and_set(std::memory_order_acquire); ++i) {\n    }")]),
("V","spin-check-then-set",[(SL,"    while (locked_.test_and_set(std::memory_order_acquire)) {\n    }","    while (locked_.load(std::memory_order_acquire)) {\n    }\n    locked_.store(true, std::memory_order_release);"),(SL,"locked_.clear(std::memory_order_release)","locked_.store(false, std::memory_order_release)"),(SL,"std::atomic_flag locked_ = ATOMIC_FLAG_INIT","std::atomic<bool> locked_{false}")]),
("V","spin-cas-weak-once",[(SL,"    while (locked_.test_and_set(std::memory_order_acquire)) {\n    }","    bool e = false;\n    locked_.compare_exchange_strong(e, true, std::memory_order_acquire);"),(SL,"locked_.clear(std::memory_order_release)","locked_.store(false, std::memory_order_release)"),(SL,"std::atomic_flag locked_ = ATOMIC_FLAG_INIT","std::atomic<bool> locked_{false}")]),
("V","spin-cas-stale",[(SL,"    while (locked_.test_and_set(std::memory_order_acquire)) {\n    }","    bool e = false;\n    while (!locked_.compare_exchange_weak(e, true, std::memory_order_acquire)) {\n    }"),(SL,"locked_.clear(std::memory_order_release)","locked_.store(false, std::memory_order_release)"),(SL,"std::atomic_flag locked_ = ATOMIC_FLAG_INIT","std::atomic<bool> locked_{false}")]),
("Q","spin-cas",[(SL,"    while (locked_.test_and_set(std::memory_order_acquire)) {\n    }","    bool e = false;\n    while (!locked_.compare_exchange_weak(e, true, std::memory_order_acquire)) {\n      e = false;\n    }"),(SL,"locked_.clear(std::memory_order_release)","locked_.store(false, std::memory_order_release)"),(SL,"std::atomic_flag locked_ = ATOMIC_FLAG_INIT","std::atomic<bool> locked_{false}")]),
("Q","spin-ttas",[(SL,"    while (locked_.test_and_set(std::memory_order_acquire)) {\n    }","    while (locked_.exchange(true, std::memory_order_acquire)) {\n      while (locked_.load(std::memory_order_relaxed)) {\n      }\n    }"),(SL,"locked_.clear(std::memory_order_release)","locked_.store(false)"),(SL,"std::atomic_flag locked_ = ATOMIC_FLAG_INIT","std::atomic<bool> locked_{false}")]),
("Q","spin-default-order",[(SL,"test_and_set(std::memory_order_acquire)","test_and_set()")]),
("Q","spin-trylock",[(SL,"  inline void unlock()","  inline bool try_lock() noexcept { return !locked_.test_and_set(std::memory_order_acquire); }\n\n  inline void unlock()")]),
("V","span-tag",[(SP,"                  const opentracing::Value& value) noexcept try {\n  SpinLockGuard lock_guard{mutex_};","                  const opentracing::Value& value) noexcept try {")]),
("V","baggage-read",[(SPH,"    SpinLockGuard lock_guard{mutex_};","")]),
("V","metrics-plain",[(MT,"std::atomic<int> num_dropped_spans_{0}","int num_dropped_spans_{0}"),("src/recorder/metrics_tracker.cpp","num_dropped_spans_.exchange(0)","0")]),
("V","fork-list",[(FA,"ForkAwareRecorder::~ForkAwareRecorder() noexcept {\n  std::lock_guard<std::mutex> lock_guard{mutex_};","ForkAwareRecorder::~ForkAwareRecorder() noexcept {")]),
("V","poll-unlocked",[(SR,"      std::lock_guard<std::mutex> lock_guard{flush_mutex_};","      std::lock_guard<std::mutex> lock_guard{shutdown_mutex_};")]),
("Q","unique-lock",[(FA,"ForkAwareRecorder::~ForkAwareRecorder() noexcept {\n  std::lock_guard<std::mutex> lock_guard{mutex_};","ForkAwareRecorder::~ForkAwareRecorder() noexcept {\n  std::unique_lock<std::mutex> lock_guard{mutex_};")]),
]
