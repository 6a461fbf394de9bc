F="src/common/flat_map.h"; B="src/tracer/baggage_flat_map.h"; U="src/recorder/stream_recorder/utility.cpp"; S="src/common/platform/string_unix.cpp"
INS="""    if (iter != data_.cend() && iter->first == key) {
      data_[std::distance(data_.cbegin(), iter)].second = std::move(value);
      return iter;
    }
    return data_.emplace(iter, std::move(key), std::move(value));
"""
FIND="""    if (iter != data_.end() && iter->first == key) {
      return iter;
    }
    return data_.end();
"""
ERASE="  hosts.erase(std::unique(hosts.begin(), hosts.end(), equal_to), hosts.end());\n"
SORT="  std::sort(hosts.begin(), hosts.end(), less_than);\n"
LOOP="""  for (auto& endpoint : endpoints) {
    auto iter = std::lower_bound(hosts.begin(), hosts.end(),
                                 endpoint.first.c_str(), less_than);
    assert(iter != hosts.end());
    indexed_endpoints.emplace_back(
        static_cast<int>(std::distance(hosts.begin(), iter)), endpoint.second);
  }
"""
M=[
("V","ins-noeq",[(F,"iter != data_.cend() && iter->first == key","iter != data_.cend()")]),
("V","ins-nocheck",[(F,"iter != data_.cend() && iter->first == key","iter->first == key")]),
("V","ins-end",[(F,"data_.emplace(iter,","data_.emplace(data_.cend(),")]),
("V","ins-next",[(F,"data_.emplace(iter,","data_.emplace(iter == data_.cend() ? iter : std::next(iter),")]),
("V","ins-keep-old",[(F,"      data_[std::distance(data_.cbegin(), iter)].second = std::move(value);\n","")]),
("V","ins-dup",[(F,"    if (iter != data_.cend() && iter->first == key) {\n      data_[std","    if (iter != data_.cend() && iter->first == key && data_.size() > 16) {\n      data_[std")]),
("V","ins-wrong-elem",[(F,"data_[std::distance(data_.cbegin(), iter)].second","data_[std::distance(data_.cbegin(), iter) - 1].second")]),
("V","find-noeq",[(F,FIND,"    return iter;\n")]),
("V","find-eq-off",[(F,FIND,"    if (iter != data_.end() && iter->first == key) {\n      return data_.end();\n    }\n    return iter;\n")]),
("V","upper",[(F,"return std::lower_bound(data_.begin(), data_.end(), key,","return std::lower_bound(data_.begin(), data_.empty() ? data_.end() : std::prev(data_.end()), key,")]),
("V","cmp-rev",[(F,"return Comp{}(lhs.first, rhs);","return Comp{}(rhs, lhs.first);")]),
("V","cmp-le",[(F,"return Comp{}(lhs.first, rhs);","return !Comp{}(rhs, lhs.first);")]),
("Q","ins-else",[(F,INS,"""    if (iter == data_.cend() || !(iter->first == key)) {
      return data_.emplace(iter, std::move(key), std::move(value));
    }
    auto position = data_.begin() + (iter - data_.cbegin());
    position->second = std::move(value);
    return position;
""")]),
("Q","find-tern",[(F,FIND,"    return (iter != data_.cend() && key == iter->first) ? iter : data_.cend();\n")]),
("Q","find-early",[(F,FIND,"    if (iter == data_.end()) {\n      return data_.end();\n    }\n    if (iter->first == key) {\n      return iter;\n    }\n    return data_.end();\n")]),
("Q","insert-pair",[(F,"data_.emplace(iter, std::move(key), std::move(value))","data_.insert(iter, std::make_pair(std::move(key), std::move(value)))")]),
("Q","cmp-var",[(F,"return Comp{}(lhs.first, rhs);","Comp comp;\n                              const bool result = comp(lhs.first, rhs);\n                              return result;")]),
("V","bag-size",[(B,"    return std::lexicographical_compare(lhs.begin(), lhs.end(), rhs.begin(),\n                                        rhs.end());","    return lhs.size() < rhs.size();")]),
("V","bag-swap",[(B,"(lhs.begin(), lhs.end(), rhs.begin(),\n                                        rhs.end())","(rhs.begin(), rhs.end(), lhs.begin(),\n                                        lhs.end())") if False else (B,"lhs.end(), rhs.begin(),\n                                        rhs.end()","lhs.begin() + 1, rhs.begin(),\n                                        rhs.begin() + 1")]),
("V","no-unique",[(U,ERASE,"")]),
("V","no-sort",[(U,SORT,"")]),
("V","sort-late",[(U,SORT+ERASE,ERASE+SORT)]),
("V","erase-less",[(U,"equal_to), hosts.end());","equal_to), hosts.end() - 1);") if False else (U,ERASE,"  std::unique(hosts.begin(), hosts.end(), equal_to);\n")]),
("V","cs-eq",[(U,"return StrCaseCmp(lhs, rhs) == 0;","return std::string{lhs} == rhs;")]),
("V","cs-less",[(U,"return StrCaseCmp(lhs, rhs) < 0;","return std::string{lhs} < rhs;")]),
("V","cs-le",[(U,"return StrCaseCmp(lhs, rhs) < 0;","return StrCaseCmp(lhs, rhs) <= 0;")]),
("V","lb-default",[(U,"endpoint.first.c_str(), less_than)","endpoint.first.c_str())")]),
("V","lb-port0",[(U,"iter)), endpoint.second);","iter)), endpoints.front().second);")]),
("V","lb-hostshort",[(U,"std::lower_bound(hosts.begin(), hosts.end(),","std::lower_bound(hosts.begin(), hosts.end() - 1,")]),
("V","one-based",[(U,"std::distance(hosts.begin(), iter)), endpoint","std::distance(hosts.begin(), iter) + 1), endpoint")]),
("V","skip-first",[(U,"  for (auto& endpoint : endpoints) {\n    hosts.emplace_back(endpoint.first.c_str());\n  }","  for (size_t i = 1; i < endpoints.size(); ++i) {\n    hosts.emplace_back(endpoints[i].first.c_str());\n  }")]),
("V","skip-port0",[(U,"    assert(iter != hosts.end());\n","    if (endpoint.second == 0) {\n      continue;\n    }\n")]),
("Q","index-loop",[(U,LOOP,LOOP.replace("for (auto& endpoint : endpoints) {","for (size_t i = 0; i < endpoints.size(); ++i) {\n    const auto& endpoint = endpoints[i];"))]),
("Q","push-back",[(U,"hosts.emplace_back(endpoint.first.c_str())","hosts.push_back(endpoint.first.data())")]),
("Q","push-pair",[(U,"    indexed_endpoints.emplace_back(\n        static_cast<int>(std::distance(hosts.begin(), iter)), endpoint.second);","    const int index = static_cast<int>(iter - hosts.begin());\n    indexed_endpoints.push_back(std::make_pair(index, endpoint.second));")]),
("Q","unique-split",[(U,ERASE,"  auto last = std::unique(hosts.begin(), hosts.end(), equal_to);\n  hosts.erase(last, hosts.end());\n")]),
("Q","gt",[(U,"return StrCaseCmp(lhs, rhs) < 0;","return 0 > StrCaseCmp(lhs, rhs);")]),
("Q","gt2",[(U,"return StrCaseCmp(lhs, rhs) < 0;","return StrCaseCmp(rhs, lhs) > 0;")]),
("Q","eq-not",[(U,"return StrCaseCmp(lhs, rhs) == 0;","return !StrCaseCmp(lhs, rhs);")]),
("Q","make-pair",[(U,"return {std::move(hosts), std::move(indexed_endpoints)};","return std::make_pair(std::move(hosts), std::move(indexed_endpoints));")]),
("V","strncase",[(S,"::strcasecmp(s1, s2)","::strncasecmp(s1, s2, 32)"),(S,"#include \"common/platform/string.h\"","#include \"common/platform/string.h\"\n#include <strings.h>")]),
("V","strcmp",[(S,"::strcasecmp(s1, s2)","::strcmp(s1, s2)"),(S,"#include \"common/platform/string.h\"","#include \"common/platform/string.h\"\n#include <cstring>")]),
("Q","helper",[(U,"  auto less_than = [](const char* lhs, const char* rhs) {\n    return StrCaseCmp(lhs, rhs) < 0;\n  };\n","  auto less_than = HostLess;\n"),(U,"namespace lightstep {\n","namespace lightstep {\nstatic bool HostLess(const char* lhs, const char* rhs) {\n  return StrCaseCmp(lhs, rhs) < 0;\n}\n")]),
("Q","functor",[(U,"  auto less_than = [](const char* lhs, const char* rhs) {\n    return StrCaseCmp(lhs, rhs) < 0;\n  };\n","  HostLess less_than;\n"),(U,"namespace lightstep {\n","namespace lightstep {\nnamespace {\nstruct HostLess {\n  bool operator()(const char* lhs, const char* rhs) const noexcept {\n    return StrCaseCmp(lhs, rhs) < 0;\n  }\n};\n}  // namespace\n")]),
]
