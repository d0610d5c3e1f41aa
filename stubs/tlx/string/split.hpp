#pragma once
#include <string>
#include <vector>
namespace tlx {
inline std::vector<std::string> split(const std::string& sep, const std::string& s) {
    std::vector<std::string> r; size_t p = 0;
    while (true) { size_t q = s.find(sep, p); if (q == std::string::npos) { r.push_back(s.substr(p)); return r; }
        r.push_back(s.substr(p, q - p)); p = q + sep.size(); }
}
inline std::vector<std::string> split(char c, const std::string& s) { return split(std::string(1, c), s); }
}
