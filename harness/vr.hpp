// Common runtime-monitoring scaffold: deterministic case generation, event counting, violation recording, reporting.
// One process runs one scenario. Case k of a scenario is a pure function of (seed, scenario, k), so a replay is
// `<binary> <scenario> <seed> <k> <k+1> <out>`.
#pragma once
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cmath>
#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vr {

struct Rng {
    std::uint64_t s;
    explicit Rng(std::uint64_t seed = 1) : s(seed) {}
    std::uint64_t next() {
        std::uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // [0, 1)
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    double uniform(double a, double b) { return a + (b - a) * unit(); }
    // inclusive
    long integer(long a, long b) { return a + static_cast<long>(next() % static_cast<std::uint64_t>(b - a + 1)); }
    bool chance(double p) { return unit() < p; }
    double gauss() {
        double u = unit();
        while (u <= 1e-300) u = unit();
        return std::sqrt(-2.0 * std::log(u)) * std::cos(2.0 * 3.14159265358979323846 * unit());
    }
    // sign * 10^uniform(lo, hi)
    double magnitude(double lo, double hi) {
        return (next() & 1 ? 1.0 : -1.0) * std::pow(10.0, uniform(lo, hi));
    }
    template<typename T>
    const T& pick(const std::vector<T>& v) { return v[next() % v.size()]; }
};

inline std::uint64_t hash_mix(std::uint64_t h, std::uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
inline std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull) {
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull;
    return h;
}
inline std::uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

struct Report {
    std::mutex mtx;
    std::string scenario;
    std::uint64_t seed = 1, case_index = 0;
    std::uint64_t evaluations = 0;      // cases run
    std::uint64_t oracle_checks = 0;    // individual oracle comparisons made
    std::unordered_set<std::uint64_t> nontrivial_hashes;
    std::map<std::string, std::uint64_t> events;
    std::map<std::string, std::unordered_set<std::uint64_t>> distinct;
    std::vector<std::string> samples;
    struct Violation {
        std::string key, detail;
        std::uint64_t case_index;
        std::uint64_t count = 1;
    };
    std::map<std::string, Violation> violations;
    std::map<std::string, double> maxima;
};

inline Report& report() {
    static Report r;
    return r;
}

// Count an observed event.
inline void event(const std::string& name, std::uint64_t n = 1) {
    std::lock_guard<std::mutex> l(report().mtx);
    report().events[name] += n;
}
// Count distinct observed states of some kind.
inline void observe_state(const std::string& name, std::uint64_t hash) {
    std::lock_guard<std::mutex> l(report().mtx);
    auto& s = report().distinct[name];
    if (s.size() < 2000000) s.insert(hash);
}
// Declare that the current case is non-trivial, identified by hash.
inline void nontrivial(std::uint64_t hash) {
    std::lock_guard<std::mutex> l(report().mtx);
    report().nontrivial_hashes.insert(hash);
}
inline void sample(const std::string& s) {
    std::lock_guard<std::mutex> l(report().mtx);
    if (report().samples.size() < 3) report().samples.push_back(s.substr(0, 400));
}
inline void maximum(const std::string& name, double v) {
    std::lock_guard<std::mutex> l(report().mtx);
    auto it = report().maxima.find(name);
    if (it == report().maxima.end()) report().maxima[name] = v;
    else if (v > it->second) it->second = v;
}
inline void fail(const std::string& key, const std::string& detail) {
    std::lock_guard<std::mutex> l(report().mtx);
    auto it = report().violations.find(key);
    if (it == report().violations.end()) {
        report().violations[key] = Report::Violation{key, detail.substr(0, 2000), report().case_index, 1};
        std::fprintf(stderr, "[violation] scenario=%s case=%llu key=%s %s\n", report().scenario.c_str(),
                (unsigned long long)report().case_index, key.c_str(), detail.substr(0, 800).c_str());
    } else {
        ++it->second.count;
    }
}
inline bool check(bool ok, const std::string& key, const std::string& detail = std::string()) {
    {
        std::lock_guard<std::mutex> l(report().mtx);
        ++report().oracle_checks;
    }
    if (!ok) fail(key, detail);
    return ok;
}
template<typename F>
bool check_lazy(bool ok, const std::string& key, F&& detail) {
    {
        std::lock_guard<std::mutex> l(report().mtx);
        ++report().oracle_checks;
    }
    if (!ok) fail(key, detail());
    return ok;
}
// Expect a C++ exception derived from std::exception.
template<typename F>
bool expect_throw(F&& f, const std::string& key, const std::string& detail = std::string()) {
    try {
        f();
    } catch (const std::exception&) {
        return check(true, key);
    } catch (...) {
        return check(false, key, detail + " (threw something that is not std::exception)");
    }
    return check(false, key, detail + " (did not throw)");
}
// Run code that must not throw.
template<typename F>
bool expect_no_throw(F&& f, const std::string& key, const std::string& detail = std::string()) {
    try {
        f();
        return check(true, key);
    } catch (const std::exception& e) {
        return check(false, key, detail + " threw: " + e.what());
    } catch (...) {
        return check(false, key, detail + " threw a non-std exception");
    }
}
// |a-b| <= tol*(1+max(|a|,|b|)); NaN never close.
inline bool close(double a, double b, double tol) {
    if (a == b) return true;
    if (!std::isfinite(a) || !std::isfinite(b)) return false;
    return std::abs(a - b) <= tol * (1.0 + std::max(std::abs(a), std::abs(b)));
}
template<typename A, typename B>
bool mat_close(const A& a, const B& b, double tol) {
    if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
    double scale = 1.0;
    for (int r = 0; r < a.rows(); ++r)
        for (int c = 0; c < a.cols(); ++c) {
            if (!std::isfinite((double)a(r, c)) || !std::isfinite((double)b(r, c))) return false;
            scale = std::max(scale, std::max(std::abs((double)a(r, c)), std::abs((double)b(r, c))));
        }
    for (int r = 0; r < a.rows(); ++r)
        for (int c = 0; c < a.cols(); ++c)
            if (std::abs((double)a(r, c) - (double)b(r, c)) > tol * scale) return false;
    return true;
}
template<typename A>
std::string str(const A& a) {
    std::ostringstream ss;
    ss.precision(17);
    ss << a;
    return ss.str();
}
template<typename A, typename... B>
std::string cat(const A& a, const B&... b) {
    std::ostringstream ss;
    ss.precision(12);
    ss << a;
    ((ss << b), ...);
    return ss.str();
}

inline std::string json_escape(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 0x20 || c > 0x7e) { char b[8]; std::snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline void write_report(const std::string& path, bool complete) {
    Report& r = report();
    std::lock_guard<std::mutex> l(r.mtx);
    std::ostringstream o;
    o << "{\"scenario\":\"" << json_escape(r.scenario) << "\",\"seed\":" << r.seed << ",\"complete\":"
      << (complete ? "true" : "false") << ",\"evaluations\":" << r.evaluations << ",\"oracle_checks\":" << r.oracle_checks
      << ",\"nontrivial\":" << r.nontrivial_hashes.size() << ",\"events\":{";
    bool first = true;
    for (auto& e : r.events) { o << (first ? "" : ",") << "\"" << json_escape(e.first) << "\":" << e.second; first = false; }
    o << "},\"distinct\":{";
    first = true;
    for (auto& e : r.distinct) { o << (first ? "" : ",") << "\"" << json_escape(e.first) << "\":" << e.second.size(); first = false; }
    o << "},\"maxima\":{";
    first = true;
    for (auto& e : r.maxima) {
        char b[64];
        std::snprintf(b, 64, "%.6g", std::isfinite(e.second) ? e.second : 1e308);
        o << (first ? "" : ",") << "\"" << json_escape(e.first) << "\":" << b;
        first = false;
    }
    o << "},\"samples\":[";
    first = true;
    for (auto& s : r.samples) { o << (first ? "" : ",") << "\"" << json_escape(s) << "\""; first = false; }
    o << "],\"violations\":[";
    first = true;
    for (auto& v : r.violations) {
        o << (first ? "" : ",") << "{\"key\":\"" << json_escape(v.second.key) << "\",\"detail\":\""
          << json_escape(v.second.detail) << "\",\"case\":" << v.second.case_index << ",\"count\":" << v.second.count << "}";
        first = false;
    }
    o << "]}\n";
    const std::string tmp = path + ".tmp";
    FILE* f = std::fopen(tmp.c_str(), "w");
    if (!f) { std::perror("report"); std::exit(3); }
    const std::string s = o.str();
    std::fwrite(s.data(), 1, s.size(), f);
    std::fclose(f);
    std::rename(tmp.c_str(), path.c_str());
    auto dump = [](const std::string& p, const std::unordered_set<std::uint64_t>& set) {
        FILE* h = std::fopen(p.c_str(), "wb");
        if (!h) return;
        std::vector<std::uint64_t> v(set.begin(), set.end());
        std::fwrite(v.data(), 8, v.size(), h);
        std::fclose(h);
    };
    dump(path + ".nt", r.nontrivial_hashes);
    for (auto& e : r.distinct) dump(path + ".ds." + e.first, e.second);
}

using Scenario = std::function<void(Rng&)>;

// Called once after the last case.
inline std::vector<std::function<void()>>& at_end() {
    static std::vector<std::function<void()>> v;
    return v;
}

// argv: scenario seed first_case last_case out
inline int run(int argc, char** argv, const std::map<std::string, Scenario>& scenarios) {
    if (argc < 6) {
        for (auto& s : scenarios) std::printf("%s\n", s.first.c_str());
        return 3;
    }
    const std::string name = argv[1];
    auto it = scenarios.find(name);
    if (it == scenarios.end()) {
        std::fprintf(stderr, "unknown scenario %s\n", name.c_str());
        return 3;
    }
    Report& r = report();
    r.scenario = name;
    r.seed = std::strtoull(argv[2], nullptr, 10);
    const std::uint64_t first = std::strtoull(argv[3], nullptr, 10), last = std::strtoull(argv[4], nullptr, 10);
    const std::string out = argv[5];
    // The case index is kept in a mapped file so that the driver knows which case a crash or hang happened in.
    const std::string cur = out + ".cur";
    int fd = ::open(cur.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd < 0 || ::ftruncate(fd, 8) != 0) return 3;
    volatile std::uint64_t* slot =
            static_cast<std::uint64_t*>(::mmap(nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
    for (std::uint64_t k = first; k < last; ++k) {
        *slot = k;
        r.case_index = k;
        Rng rng(hash_mix(hash_mix(hash_str(name), r.seed), k));
        try {
            it->second(rng);
        } catch (const std::exception& e) {
            fail(std::string("unexpected-exception:") + name, std::string("uncaught exception: ") + e.what());
        } catch (...) {
            fail(std::string("unexpected-exception:") + name, "uncaught non-std exception");
        }
        ++r.evaluations;
        // A failing case may leave threads stuck and be slow: stop soon after the first failure.
        static std::chrono::steady_clock::time_point failed;
        if (!r.violations.empty()) {
            if (failed == std::chrono::steady_clock::time_point()) failed = std::chrono::steady_clock::now();
            else if (std::chrono::steady_clock::now() - failed > std::chrono::seconds(10)) break;
        }
    }
    for (auto& f : at_end()) f();
    write_report(out, true);
    std::fflush(nullptr);
    ::_exit(r.violations.empty() ? 0 : 1);
}

}
