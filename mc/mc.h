// Stateless exhaustive explorer.
//
// A scenario resolves every open decision with Ctx::choose(n). The driver enumerates all choice
// sequences depth first and executes the scenario (which runs the real code under test and compares
// it with a reference model) on each of them. Work is split over forked workers; a crash, sanitizer
// abort or hang of the code under test is attributed to the choice sequence being executed.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <string>
#include <vector>
#include <functional>
#include <unordered_set>
#include <cstring>
#include <exception>
#include <stdexcept>
#include <memory>
#include <algorithm>
#include <cmath>
#include <climits>
#include <limits>
#include <optional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <iomanip>
#include <array>
#include <map>
#include <set>
#include <numeric>

namespace mc {

struct Violation { std::string msg; };
struct Skip {};

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

class Ctx {
public:
    // ---- decisions -------------------------------------------------------------------------
    int choose(int n, const char* label = "");
    int range(int lo, int hi, const char* label = "") { return lo + choose(hi - lo + 1, label); }
    bool flip(const char* label = "") { return choose(2, label) != 0; }
    template <typename V> const typename V::value_type& pick(const V& v, const char* label = "") {
        return v[choose((int)v.size(), label)];
    }
    // Marks the point after which this path is processed by a single worker. Once per path.
    void shard_point();
    void memory(int gb);                              // this scenario may take so much memory

    // ---- observations ----------------------------------------------------------------------
    void step(uint64_t n = 1);                        // n operations of the code under test were executed
    void state(uint64_t hash);                        // a (canonically hashed) state was reached
    void require(bool cond, const char* f, ...) __attribute__((format(printf, 3, 4)));
    [[noreturn]] void fail(const std::string& msg);
    void note(const char* f, ...) __attribute__((format(printf, 2, 3)));   // only kept when describing
    bool describing() const { return describing_; }
    bool thorough() const { return thorough_; }
    // Discard this path: it is not part of the space (duplicate or not meaningful)
    [[noreturn]] void discard();

    // Used by the scheduler: record the failure without unwinding (we may be on a foreign thread)
    void soft_fail(const std::string& msg);
    bool soft_failed() const { return !soft_msg_.empty(); }
    const std::string& soft_msg() const { return soft_msg_; }
    // Terminate this execution at once as a violation (deadlock: stacks cannot be unwound)
    [[noreturn]] void hard_fail(const std::string& msg);

    // ---- driver internals ------------------------------------------------------------------
    struct Impl;
    Impl* impl = nullptr;
    bool describing_ = false, thorough_ = false;
    std::string soft_msg_;
    std::string notes_;
};

typedef std::function<void(Ctx&)> Scenario;
struct Named { std::string name; Scenario fn; };

// argv: --tier T --workers N --out FILE --deadline S | --replay FILE
int run(int argc, char** argv, const std::string& property, const std::vector<Named>& scenarios,
        const std::string& bounds);

// ---- small helpers ---------------------------------------------------------------------------
struct Hash {
    uint64_t h = 1469598103934665603ull;
    Hash& raw(const void* p, size_t n) {
        const unsigned char* c = (const unsigned char*)p;
        for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
        h ^= h >> 29;
        return *this;
    }
    Hash& i(int64_t v) { return raw(&v, sizeof v); }
    Hash& d(double v) { if (v == 0) v = 0; return raw(&v, sizeof v); }
    Hash& s(const std::string& v) { i(v.size()); return raw(v.data(), v.size()); }
    operator uint64_t() const { return h; }
};

} // namespace mc
