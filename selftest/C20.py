C="src/common/random.cpp"; H="src/common/random.h"; F="src/common/fast_random_number_generator.h"; K="src/common/platform/fork_unix.cpp"
DEV="    std::random_device random_device;\n    std::seed_seq seed_seq{random_device(), random_device(), random_device(),\n                           random_device()};\n"
M=[
("V","no-tls-engine",[(C,"  static thread_local FastRandomNumberGenerator engine_;","  static FastRandomNumberGenerator engine_;"),(C,"\nthread_local FastRandomNumberGenerator Tls","\nFastRandomNumberGenerator Tls")]),
("V","no-tls-guard",[(C,"  static thread_local TlsRandomNumberGenerator random","  static TlsRandomNumberGenerator random")]),
("V","no-seed",[(C,"    Seed();\n    AtFork","    AtFork")]),
("V","no-atfork",[(C,"    AtFork(nullptr, nullptr, OnFork);\n","")]),
("V","atfork-parent",[(C,"AtFork(nullptr, nullptr, OnFork)","AtFork(nullptr, OnFork, nullptr)")]),
("V","atfork-order",[(K,"(prepare, parent, child);","(child, parent, prepare);")]),
("V","onfork-nothing",[(C,"noexcept { Seed(); }","noexcept {}")]),
("V","seed-time",[(C,DEV,"    std::seed_seq seed_seq{static_cast<unsigned>(std::chrono::steady_clock::now().time_since_epoch().count())};\n"),(C,"#include <cassert>","#include <cassert>\n#include <chrono>")]),
("V","seed-weak",[(C,"random_device(), random_device(), random_device(),\n                           random_device()}","random_device()}")]),
("V","seed-same",[(C,DEV,"    std::random_device random_device;\n    const auto r = random_device();\n    std::seed_seq seed_seq{r, r, r, r};\n")]),
("V","seed-half",[(F,"state_.data() + state_.size()","state_.data() + state_.size() / 2")]),
("Q","seed-array",[(C,DEV,"    std::random_device random_device;\n    uint32_t entropy[4];\n    for (auto& x : entropy) x = random_device();\n    std::seed_seq seed_seq(entropy, entropy + 4);\n")]),
("Q","seed-more",[(C,"random_device()};","random_device(), random_device()};")]),
("V","seed-array-short",[(C,DEV,"    std::random_device random_device;\n    uint32_t entropy[4] = {};\n    for (int i = 0; i < 3; ++i) entropy[i] = random_device();\n    std::seed_seq seed_seq(entropy, entropy + 4);\n")]),
("Q","lambda",[(C,"AtFork(nullptr, nullptr, OnFork)","AtFork(nullptr, nullptr, []() noexcept { Seed(); })")]),
("Q","flag",[(C,"  static thread_local TlsRandomNumberGenerator random_number_generator{};\n","  static thread_local bool ready = false;\n  if (!ready) {\n    TlsRandomNumberGenerator random_number_generator{};\n    ready = true;\n  }\n")]),
("V","flag-global",[(C,"  static thread_local TlsRandomNumberGenerator random_number_generator{};\n","  static bool ready = false;\n  if (!ready) {\n    TlsRandomNumberGenerator random_number_generator{};\n    ready = true;\n  }\n")]),
("Q","register-once",[(C,"    AtFork(nullptr, nullptr, OnFork);\n","    static const int registered = AtFork(nullptr, nullptr, OnFork);\n    (void)registered;\n")]),
("V","ids-same",[(H,"  for (auto& value : result) {\n    value = random_number_generator();\n  }","  auto id = random_number_generator();\n  for (auto& value : result) {\n    value = id;\n  }")]),
("Q","ids-index",[(H,"  for (auto& value : result) {\n    value = random_number_generator();\n  }","  for (size_t i = 0; i < N; ++i) {\n    result[i] = random_number_generator();\n  }")]),
("V","ids-short",[(H,"  for (auto& value : result) {\n    value = random_number_generator();\n  }","  result[0] = random_number_generator();\n  for (size_t i = 1; i + 1 < N; ++i) {\n    result[i] = random_number_generator();\n  }")]),
("Q","ids-generate",[(H,"  for (auto& value : result) {\n    value = random_number_generator();\n  }","  std::generate(result.begin(), result.end(), [&] { return random_number_generator(); });"),(H,"#include <random>","#include <algorithm>\n#include <random>")]),
("V","step-shift",[(F,"t << 23","t << 24")]),
("V","step-lost",[(F,"    state_a = s;\n","    state_a = s >> 1;\n")]),
("V","step-or",[(F,"t ^= t << 23","t |= t << 23")]),
("V","step-nob",[(F,"    state_b = t;\n","    state_b = s;\n")]),
("V","step-out",[(F,"return t + s;","return s;")]),
("Q","step-rewrite",[(F,"    auto& state_a = state_[0];\n    auto& state_b = state_[1];\n    auto t = state_a;\n    auto s = state_b;\n    state_a = s;","    uint64_t t = state_[0];\n    const uint64_t s = state_[1];\n    auto& state_b = state_[1];\n    state_[0] = s;")]),
("V","duration-scale",[(H,"          std::chrono::duration_cast<std::chrono::nanoseconds>(b)));","          std::chrono::duration_cast<std::chrono::nanoseconds>(a)));")]),
("V","duration-bound",[(C,"      a.count(), b.count()};","      0, b.count()};")]),
]
