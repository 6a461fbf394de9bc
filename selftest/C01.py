B="src/common/circular_buffer.h"; R="src/common/circular_buffer_range.h"; A="src/common/atomic_unique_ptr.h"
ADD="""        if (head_.compare_exchange_weak(expected_head, new_head,
                                        std::memory_order_release,
                                        std::memory_order_relaxed)) {
          // free the swapped out value
          ptr.reset();

          return true;
        }
"""
M=[
("V","stale-head",["C01"],[(B,"      int64_t tail = tail_;\n      int64_t head = head_;\n","      int64_t head = head_;\n      int64_t tail = tail_;\n")]),
("V","full-off-by-one",["C01"],[(B,"static_cast<size_t>(head - tail) >= capacity_ - 1","static_cast<size_t>(head - tail) >= capacity_")]),
("V","no-undo",["C01"],[(B,"        data_[head_index].Swap(ptr);\n","        return true;\n")]),
("V","store-head",["C01"],[(B,ADD,"        head_.store(new_head, std::memory_order_release);\n        (void)expected_head;\n        return true;\n")]),
("V","swap-first",["C01"],[(B,"      if (data_[head_index].SwapIfNull(ptr)) {","      data_[head_index].Swap(ptr);\n      {")]),
("V","fetch-add",["C01"],[(B,"      int64_t head_index = head % capacity_;\n","      int64_t head_index = head_.fetch_add(1) % capacity_;\n"),(B,ADD,"        return true;\n")]),
("V","false-on-contention",["C01"],[(B,"        data_[head_index].Swap(ptr);\n","        ptr.reset();\n        return false;\n")]),
("V","swap-if-null-relaxed-owner",["C01"],[(A,"    if (was_successful) {\n      owner.release();\n      return true;\n    }\n    return false;","    owner.release();\n    return was_successful;")]),
("V","swap-not-exchange",["C01"],[(A,"    ptr.reset(ptr_.exchange(ptr.release()));","    T* old = ptr_.load();\n    ptr_.store(ptr.release());\n    ptr.reset(old);")]),
("Q","swap-null-relaxed",[],[(A,"        expected, ptr, std::memory_order_release, std::memory_order_relaxed);","        expected, ptr, std::memory_order_relaxed, std::memory_order_relaxed);")]),
("V","head-index-and",["C01"],[(B,"      int64_t head_index = head % capacity_;","      int64_t head_index = head & (capacity_ - 1);")]),
("V","consume-late-count",["C02"],[(B,"    auto range = PeekImpl().Take(n);","    auto range = PeekImpl();")]),
("V","peek-order",["C02"],[(B,"    return {data + tail_index, data + capacity_, data, data + head_index};","    return {data, data + head_index, data + tail_index, data + capacity_};")]),
("V","peek-last",["C02"],[(B,"data + capacity_, data,","data + capacity_ - 1, data,")]),
("V","take-second",["C02"],[(R,"first2_ + (n - size1)","first2_ + n")]),
("V","take-boundary",["C02"],[(R,"static_cast<size_t>(size1) >= n","static_cast<size_t>(size1) > n + 1")]),
("V","consume-skips-reset",["C02"],[(B,"            ptr.Reset();\n            return true;","            ptr.Reset();\n            return !ptr.IsNull();")]),
("V","reset-store",["C02","C01","C03"],[(A,"    ptr = ptr_.exchange(ptr);\n    if (ptr != nullptr) {","    T* old = ptr_.load();\n    ptr_.store(ptr);\n    std::swap(ptr, old);\n    if (ptr != nullptr && old != nullptr) {")]),
("V","size-of-range",["C02"],[(R,"std::distance(first2_, last2_));","std::distance(first1_, last2_));")]),
("V","tail-store-n",["C02"],[(B,"    tail_ += n;\n","    tail_ = static_cast<int64_t>(n);\n")]),
("Q","add-strong",[],[(B,"head_.compare_exchange_weak(expected_head","head_.compare_exchange_strong(expected_head")]),
("Q","add-early-continue",[],[(B,"      if (data_[head_index].SwapIfNull(ptr)) {\n        auto new_head","      if (!data_[head_index].SwapIfNull(ptr)) {\n        continue;\n      }\n      {\n        auto new_head")]),
("Q","add-for",[],[(B,"    while (true) {\n      int64_t tail","    for (;;) {\n      const int64_t tail")]),
("Q","full-helper",[],[(B,"      if (static_cast<size_t>(head - tail) >= capacity_ - 1) {","      if (IsFull(head, tail)) {"),(B," private:\n"," private:\n  bool IsFull(int64_t head, int64_t tail) const noexcept {\n    return static_cast<size_t>(head - tail) >= max_size();\n  }\n\n")]),
("Q","slot-ref",[],[(B,"      int64_t head_index = head % capacity_;\n      if (data_[head_index].SwapIfNull(ptr)) {","      auto& slot = data_[head % capacity_];\n      if (slot.SwapIfNull(ptr)) {"),(B,"        data_[head_index].Swap(ptr);","        slot.Swap(ptr);")]),
("Q","consume-fetch-add",[],[(B,"    tail_ += n;\n","    tail_.fetch_add(static_cast<int64_t>(n));\n")]),
("Q","peek-size",[],[(B,"    if (head_index == tail_index) {\n      return {};\n    }\n    auto data = data_.get();\n    if (tail_index < head_index) {","    auto data = data_.get();\n    if (head_index == tail_index) {\n      return {nullptr, nullptr, nullptr, nullptr};\n    }\n    if (head_index > tail_index) {")]),
("Q","take-min",[],[(R,"    if (static_cast<size_t>(size1) >= n) {\n      return {first1_, first1_ + n, nullptr, nullptr};\n    }\n    return {first1_, last1_, first2_, first2_ + (n - size1)};","    if (static_cast<size_t>(size1) < n) {\n      return {first1_, last1_, first2_, first2_ + (n - size1)};\n    }\n    return {first1_, first1_ + n, nullptr, nullptr};")]),
("Q","foreach-helper",[],[(R,"    for (auto iter = first1_; iter != last1_; ++iter) {\n      if (!callback(*iter)) {\n        return false;\n      }\n    }\n    for (auto iter = first2_; iter != last2_; ++iter) {\n      if (!callback(*iter)) {\n        return false;\n      }\n    }\n    return true;","    return ForEachIn(first1_, last1_, callback) &&\n           ForEachIn(first2_, last2_, callback);"),(R," private:\n"," private:\n  template <class Callback>\n  static bool ForEachIn(T* first, T* last, Callback& callback) noexcept(\n      noexcept(std::declval<Callback>()(std::declval<T&>()))) {\n    for (; first != last; ++first) {\n      if (!callback(*first)) {\n        return false;\n      }\n    }\n    return true;\n  }\n\n")]),
("Q","swapifnull-strong",[],[(A,"    auto was_successful = ptr_.compare_exchange_weak(\n        expected, ptr, std::memory_order_release, std::memory_order_relaxed);\n    if (was_successful) {\n      owner.release();\n      return true;\n    }\n    return false;","    if (!ptr_.compare_exchange_strong(expected, ptr, std::memory_order_release,\n                                      std::memory_order_relaxed)) {\n      return false;\n    }\n    owner.release();\n    return true;")]),
("Q","swap-local",[],[(A,"    ptr.reset(ptr_.exchange(ptr.release()));","    T* mine = ptr.release();\n    T* old = ptr_.exchange(mine);\n    ptr.reset(old);")]),
("Q","reset-local",[],[(A,"    ptr = ptr_.exchange(ptr);\n    if (ptr != nullptr) {\n      delete ptr;\n    }","    std::unique_ptr<T> old{ptr_.exchange(ptr)};")]),
]
