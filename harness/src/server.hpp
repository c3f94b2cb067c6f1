// Request/response framing shared by the operations of the harness server.
#pragma once
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vh {
struct Req {
    std::string op;
    std::map<std::string, std::string> kv;
    std::map<std::string, std::vector<double>> arr;
    bool has(const std::string& k) const {
        return kv.count(k) > 0;
    }
    std::string s(const std::string& k) const {
        auto it = kv.find(k);
        if (it == kv.end()) {
            throw std::logic_error("harness: missing key " + k);
        }
        return it->second;
    }
    std::string s(const std::string& k, const std::string& d) const {
        return has(k) ? s(k) : d;
    }
    double d(const std::string& k) const {
        return std::strtod(s(k).c_str(), nullptr);
    }
    double d(const std::string& k, double def) const {
        return has(k) ? d(k) : def;
    }
    long i(const std::string& k) const {
        return std::strtol(s(k).c_str(), nullptr, 10);
    }
    long i(const std::string& k, long def) const {
        return has(k) ? i(k) : def;
    }
    const std::vector<double>& a(const std::string& k) const {
        auto it = arr.find(k);
        if (it == arr.end()) {
            throw std::logic_error("harness: missing array " + k);
        }
        return it->second;
    }
};
struct Resp {
    std::vector<std::pair<std::string, std::string>> kv;
    std::vector<std::pair<std::string, std::vector<double>>> arr;
    void set(const std::string& k, const std::string& v) {
        kv.emplace_back(k, v);
    }
    void set(const std::string& k, const char* v) {
        kv.emplace_back(k, v);
    }
    void set(const std::string& k, double v) {
        char b[64];
        std::snprintf(b, sizeof b, "%a", v);
        kv.emplace_back(k, b);
    }
    void seti(const std::string& k, long v) {
        kv.emplace_back(k, std::to_string(v));
    }
    void add(const std::string& k, std::vector<double> v) {
        arr.emplace_back(k, std::move(v));
    }
};
typedef std::function<void(const Req&, Resp&)> Op;
std::map<std::string, Op>& ops();
struct Register {
    Register(const std::string& n, Op op) {
        ops()[n] = op;
    }
};
std::vector<std::string> split(const std::string& s, char c);
std::vector<double> numbers(const std::string& s); // separated by ','
}
