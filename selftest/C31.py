C="src/common/random_traverser.cpp"
SW="    std::swap(indexes_[i], indexes_[distribution(GetRandomNumberGenerator())]);\n"
CB="    if (!callback(indexes_[i])) {\n      return false;\n    }\n"
M=[
("V","dist0",[(C,"distribution{i, n_minus_1}","distribution{0, n_minus_1}")]),
("V","dist-over",[(C,"distribution{i, n_minus_1}","distribution{i, n_minus_1 + 1}")]),
("Q","dist-less",[(C,"distribution{i, n_minus_1}","distribution{i, n_minus_1 - 0}")]),
("V","assign",[(C,SW,"    indexes_[i] = indexes_[distribution(GetRandomNumberGenerator())];\n")]),
("V","swap-after",[(C,SW+CB if False else SW, ""),(C,CB,CB+SW)]),
("Q","swap-manual",[(C,SW,"    const int j = distribution(GetRandomNumberGenerator());\n    const int t = indexes_[i];\n    indexes_[i] = indexes_[j];\n    indexes_[j] = t;\n")]),
("Q","use-value",[(C,SW,"    const int j = distribution(GetRandomNumberGenerator());\n    const int t = indexes_[j];\n    indexes_[j] = indexes_[i];\n    indexes_[i] = t;\n"),(C,"callback(indexes_[i])","callback(t)")]),
("Q","iter-swap",[(C,SW,"    std::iter_swap(indexes_.begin() + i, indexes_.begin() + distribution(GetRandomNumberGenerator()));\n")]),
("V","last-front",[(C,"callback(indexes_.back())","callback(indexes_.front())")]),
("V","short",[(C,"i < n_minus_1","i < n_minus_1 - 1")]),
("V","skip-first",[(C,"int i = 0;","int i = 1;")]),
("V","no-stop",[(C,CB,"    callback(indexes_[i]);\n")]),
("V","ret-true",[(C,"  return callback(indexes_.back());","  callback(indexes_.back());\n  return true;")]),
("Q","while",[(C,"for (int i = 0; i < n_minus_1; ++i) {","int i = -1;\n  while (++i < n_minus_1) {")]),
("Q","full-loop",[(C,"i < n_minus_1","i <= n_minus_1"),(C,"  return callback(indexes_.back());","  return true;")]),
("V","twice-last",[(C,"i < n_minus_1","i <= n_minus_1")]),
("Q","shuffle",[(C,SW,""),(C,"  for (int i","  std::shuffle(indexes_.begin(), indexes_.end(), GetRandomNumberGenerator());\n  for (int i"),(C,"    std::uniform_int_distribution<int> distribution{i, n_minus_1};\n","")]),
("V","iota1",[(C,"indexes_.end(), 0","indexes_.end(), 1")]),
("V","iota-short",[(C,"indexes_.begin(), indexes_.end(), 0","indexes_.begin(), indexes_.end() - 1, 0")]),
("Q","fill-loop",[(C,"  std::iota(indexes_.begin(), indexes_.end(), 0);","  for (int i = 0; i < n; ++i) indexes_[i] = i;")]),
("Q","fill-push",[(C,": indexes_(n) {",": indexes_() {\n  indexes_.reserve(n);"),(C,"  std::iota(indexes_.begin(), indexes_.end(), 0);","  for (int i = 0; i < n; ++i) indexes_.push_back(i);")]),
("V","fill-loop-bad",[(C,"  std::iota(indexes_.begin(), indexes_.end(), 0);","  for (int i = 1; i < n; ++i) indexes_[i] = i - 1;")]),
("Q","helper",[(C,"bool RandomTraverser::ForEachIndex(","static void Exchange(int& a, int& b) noexcept {\n  const int t = a;\n  a = b;\n  b = t;\n}\nbool RandomTraverser::ForEachIndex("),(C,"std::swap(","Exchange(")]),
]
