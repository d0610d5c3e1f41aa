// Minimal stand-in for tlx::CmdlineParser: -k value / --long value / flags / positional params.
#pragma once
#include <cstdlib>
#include <functional>
#include <iostream>
#include <string>
#include <vector>
namespace tlx {
class CmdlineParser {
    struct Opt { char k; std::string l; bool flag; std::function<void(const std::string&)> set; };
    std::vector<Opt> opts; std::vector<std::function<void(const std::string&)> > params;
    std::vector<bool> is_list; size_t required = 0;
    void add(char k, const std::string& l, bool f, std::function<void(const std::string&)> s) { opts.push_back({ k, l, f, s }); }
 public:
    void set_description(const std::string&) { }
    void set_author(const std::string&) { }
    void add_bool(char k, const std::string& l, bool& d, const std::string&) { add(k, l, true, [&d](const std::string&) { d = true; }); }
    void add_flag(char k, const std::string& l, bool& d, const std::string& h) { add_bool(k, l, d, h); }
    void add_int(char k, const std::string& l, int& d, const std::string&) { add(k, l, false, [&d](const std::string& s) { d = atoi(s.c_str()); }); }
    void add_unsigned(char k, const std::string& l, unsigned& d, const std::string&) { add(k, l, false, [&d](const std::string& s) { d = strtoul(s.c_str(), 0, 10); }); }
    void add_uint(char k, const std::string& l, unsigned& d, const std::string& h) { add_unsigned(k, l, d, h); }
    void add_size_t(char k, const std::string& l, size_t& d, const std::string&) { add(k, l, false, [&d](const std::string& s) { d = strtoull(s.c_str(), 0, 10); }); }
    void add_double(char k, const std::string& l, double& d, const std::string&) { add(k, l, false, [&d](const std::string& s) { d = atof(s.c_str()); }); }
    void add_string(char k, const std::string& l, std::string& d, const std::string&) { add(k, l, false, [&d](const std::string& s) { d = s; }); }
    void add_stringlist(char k, const std::string& l, std::vector<std::string>& d, const std::string&) { add(k, l, false, [&d](const std::string& s) { d.push_back(s); }); }
    void add_param_string(const std::string&, std::string& d, const std::string&) { params.push_back([&d](const std::string& s) { d = s; }); ++required; }
    void add_param_size_t(const std::string&, size_t& d, const std::string&) { params.push_back([&d](const std::string& s) { d = strtoull(s.c_str(), 0, 10); }); ++required; }
    void add_param_unsigned(const std::string&, unsigned& d, const std::string&) { params.push_back([&d](const std::string& s) { d = strtoul(s.c_str(), 0, 10); }); ++required; }
    void add_param_int(const std::string&, int& d, const std::string&) { params.push_back([&d](const std::string& s) { d = atoi(s.c_str()); }); ++required; }
    void add_param_double(const std::string&, double& d, const std::string&) { params.push_back([&d](const std::string& s) { d = atof(s.c_str()); }); ++required; }
    void add_opt_param_string(const std::string&, std::string& d, const std::string&) { params.push_back([&d](const std::string& s) { d = s; }); }
    bool process(int argc, const char* const* argv) {
        size_t p = 0;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i]; Opt* o = nullptr; std::string val; bool hv = false;
            if (a.size() > 1 && a[0] == '-') {
                if (a[1] == '-') { for (auto& x : opts) if ("--" + x.l == a) o = &x; }
                else { for (auto& x : opts) if (x.k == a[1]) o = &x; if (o && a.size() > 2 && !o->flag) { val = a.substr(2); hv = true; } }
                if (!o) { std::cerr << "unknown option " << a << std::endl; return false; }
                if (!o->flag && !hv) { if (++i >= argc) return false; val = argv[i]; }
                o->set(val);
            } else { if (p >= params.size()) return false; params[p++](a); }
        }
        return p >= required;
    }
    bool process(int argc, char** argv) { return process(argc, const_cast<const char* const*>(argv)); }
};
}
