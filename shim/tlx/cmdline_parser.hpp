// Stand-in for tlx's command line parser (the submodule is not available offline): the subset
// the programs use, with the same conventions (-k value, --key value, -kvalue, parameters in order).
#pragma once
#include <cstdlib>
#include <iostream>
#include <string>
#include <vector>
namespace tlx {
class CmdlineParser {
    enum Type { FLAG, INT, SIZE, DOUBLE, STRING, LIST };
    struct Arg { char key; std::string name; Type type; void* to; bool param, optional, found; };
    std::vector<Arg> args;
    void add(char k, const std::string& n, Type t, void* to, bool param = false, bool opt = true) { args.push_back({ k, n, t, to, param, opt, false }); }
    static bool set(Arg& a, const std::string& v) {
        char* end = nullptr;
        a.found = true;
        switch (a.type) {
        case INT: { long x = strtol(v.c_str(), &end, 10); *static_cast<int*>(a.to) = (int)x; break; }
        case SIZE: { if (v.empty() || v[0] == '-') return false; unsigned long long x = strtoull(v.c_str(), &end, 10); *static_cast<std::size_t*>(a.to) = (std::size_t)x; break; }
        case DOUBLE: *static_cast<double*>(a.to) = strtod(v.c_str(), &end); break;
        case STRING: *static_cast<std::string*>(a.to) = v; return true;
        case LIST: static_cast<std::vector<std::string>*>(a.to)->push_back(v); return true;
        case FLAG: return false;
        }
        return !v.empty() && end && *end == 0;
    }
 public:
    void add_bool(char k, const std::string& n, bool& d, const std::string&) { add(k, n, FLAG, &d); }
    void add_flag(char k, const std::string& n, bool& d, const std::string&) { add(k, n, FLAG, &d); }
    void add_int(char k, const std::string& n, int& d, const std::string&) { add(k, n, INT, &d); }
    void add_size_t(char k, const std::string& n, std::size_t& d, const std::string&) { add(k, n, SIZE, &d); }
    void add_double(char k, const std::string& n, double& d, const std::string&) { add(k, n, DOUBLE, &d); }
    void add_string(char k, const std::string& n, std::string& d, const std::string&) { add(k, n, STRING, &d); }
    void add_stringlist(char k, const std::string& n, std::vector<std::string>& d, const std::string&) { add(k, n, LIST, &d); }
    void add_param_string(const std::string& n, std::string& d, const std::string&) { add(0, n, STRING, &d, true, false); }
    void add_param_size_t(const std::string& n, std::size_t& d, const std::string&) { add(0, n, SIZE, &d, true, false); }
    void add_param_int(const std::string& n, int& d, const std::string&) { add(0, n, INT, &d, true, false); }
    void add_param_double(const std::string& n, double& d, const std::string&) { add(0, n, DOUBLE, &d, true, false); }
    bool process(int argc, const char* const* argv) {
        std::size_t next = 0;
        for (int i = 1; i < argc; ++i) {
            std::string s = argv[i];
            Arg* a = nullptr;
            std::string val;
            bool have = false;
            if (s.size() > 1 && s[0] == '-' && s != "--") {
                if (s[1] == '-') {
                    std::string n = s.substr(2);
                    for (auto& x : args) if (!x.param && x.name == n) a = &x;
                } else {
                    for (auto& x : args) if (!x.param && x.key == s[1]) a = &x;
                    if (a && s.size() > 2) { val = s.substr(2); have = true; }
                }
                if (!a) { std::cerr << "unknown option " << s << "\n"; return false; }
                if (a->type == FLAG) { *static_cast<bool*>(a->to) = true; a->found = true; continue; }
                if (!have) { if (++i >= argc) { std::cerr << "option needs a value " << s << "\n"; return false; } val = argv[i]; }
            } else {
                while (next < args.size() && !args[next].param) ++next;
                if (next == args.size()) { std::cerr << "too many parameters\n"; return false; }
                a = &args[next++];
                val = s;
            }
            if (!set(*a, val)) { std::cerr << "bad value " << val << "\n"; return false; }
        }
        for (auto& x : args) if (!x.optional && !x.found) { std::cerr << "missing parameter " << x.name << "\n"; return false; }
        return true;
    }
};
}
