#pragma once
#include <string>
#include <vector>
namespace tlx {
static inline std::vector<std::string> split(const std::string& sep, const std::string& s) {
    std::vector<std::string> out;
    if (sep.empty()) { for (char c : s) out.emplace_back(1, c); return out; }
    size_t p = 0, q;
    while ((q = s.find(sep, p)) != std::string::npos) { out.push_back(s.substr(p, q - p)); p = q + sep.size(); }
    out.push_back(s.substr(p));
    return out;
}
static inline std::vector<std::string> split(char sep, const std::string& s) { return split(std::string(1, sep), s); }
}
