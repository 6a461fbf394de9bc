F = "src/common/function_ref.h"; C = "src/common/composable_fragment_input_stream.cpp"; CS = "src/common/chained_stream.cpp"; CSH = "src/common/chained_stream.h"; SS = "src/recorder/stream_recorder/span_stream.cpp"; CN = "src/recorder/stream_recorder/connection_stream.cpp"
M = [
 ("V", "by-value", [(F, "void BindTo(F& f) noexcept {", "void BindTo(F f) noexcept {")]),
 ("V", "no-forward", [(F, "      return (*static_cast<FunctionPointer<F>>(callable_))(\n          std::forward<Args>(args)...);", "      return (*static_cast<FunctionPointer<F>>(callable_))(\n          args...);")]),
 ("V", "no-forward-outer", [(F, "return invoker_(callable_, std::forward<Args>(args)...);", "return invoker_(callable_, args...);")]),
 ("V", "null-pointer-bound", [(F, "    if (f == nullptr) {\n      return BindTo(nullptr);\n    }\n", "")]),
 ("V", "null-half-bound", [(F, "      return BindTo(nullptr);", "      callable_ = nullptr;\n      return BindTo(nullptr, 0);"), (F, "  void BindTo(std::nullptr_t) noexcept {", "  void BindTo(std::nullptr_t, int) noexcept {\n    invoker_ = [](void*, Args...) -> R { return R(); };\n  }\n\n  void BindTo(std::nullptr_t) noexcept {")]),
 ("V", "bool-callable", [(F, "return invoker_; }", "return invoker_ == nullptr; }")]),
 ("V", "bool-always", [(F, "return invoker_; }", "return true; }")]),
 ("V", "copy-callable", [(F, "    callable_ = static_cast<void*>(std::addressof(f));\n", "    static F* last = std::addressof(f);\n    callable_ = static_cast<void*>(last);\n")]),
 ("V", "copy-drops", [(F, "  FunctionRef(FunctionRef&&) noexcept = default;", "  FunctionRef(FunctionRef&& other) noexcept : callable_{other.callable_} {}")]),
 ("V", "copy-binds", [(F, "  FunctionRef(const FunctionRef&) noexcept = default;", "  FunctionRef(const FunctionRef& other) noexcept { BindTo(const_cast<FunctionRef&>(other)); }")]),
 ("V", "move-empties", [(F, "  FunctionRef(FunctionRef&&) noexcept = default;", "  FunctionRef(FunctionRef&& other) noexcept : callable_{other.callable_}, invoker_{other.invoker_} { other.callable_ = nullptr; }")]),
 ("V", "kept-in-member", [(CSH, "  bool output_closed_{false};", "  mutable FunctionRef<bool(void*, int)> last_callback_{nullptr};\n\n  bool output_closed_{false};")]),
 ("V", "kept-in-static", [(CS, "bool ChainedStream::SegmentForEachFragment(Callback callback) const noexcept {\n", "bool ChainedStream::SegmentForEachFragment(Callback callback) const noexcept {\n  static const Callback* last = nullptr;\n  if (last == nullptr) {\n    last = &callback;\n  }\n  if (!*last) {\n    return false;\n  }\n")]),
 ("V", "dangling-lambda", [(C, "    if (!stream->SegmentForEachFragment(callback)) {", "    auto make = [&callback]() {\n      auto f = [&callback](void* data, int size) { return callback(data, size); };\n      return Callback{f};\n    };\n    if (!stream->SegmentForEachFragment(make())) {")]),
 ("Q", "explicit-init", [(F, "    callable_ = static_cast<void*>(std::addressof(f));\n", "    void* address = static_cast<void*>(std::addressof(f));\n    callable_ = address;\n")]),
 ("Q", "bool-compare", [(F, "return invoker_; }", "return invoker_ != nullptr; }")]),
 ("Q", "bool-both", [(F, "return invoker_; }", "return callable_ != nullptr && invoker_ != nullptr; }")]),
 ("Q", "null-else", [(F, "    if (f == nullptr) {\n      return BindTo(nullptr);\n    }\n    callable_", "    if (!f) {\n      callable_ = nullptr;\n      invoker_ = nullptr;\n      return;\n    }\n    callable_")]),
 ("Q", "copy-spelled", [(F, "  FunctionRef(const FunctionRef&) noexcept = default;", "  FunctionRef(const FunctionRef& other) noexcept\n      : callable_{other.callable_}, invoker_{other.invoker_} {}")]),
 ("Q", "nested-lambda", [(C, "    if (!stream->SegmentForEachFragment(callback)) {", "    auto f = [&](void* data, int size) { return callback(data, size); };\n    if (!stream->SegmentForEachFragment(f)) {")]),
]
