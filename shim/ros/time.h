// Stand-in for roscpp's Time, Duration, WallTime and WallDuration (same arithmetic, same range checks).
#pragma once
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <ostream>
#include <stdexcept>
#include <cstdio>
#include <functional>
#include <thread>
#include <limits>

namespace ros {

// Sleeping: the harness may install a hook (e.g. to look at locks, or to run pending callbacks); otherwise a short real sleep.
inline std::function<void(std::int64_t)>& vr_sleep_hook() { static std::function<void(std::int64_t)> f; return f; }
inline bool vr_sleep(std::int64_t ns) {
    if (vr_sleep_hook()) vr_sleep_hook()(ns);
    else std::this_thread::sleep_for(std::chrono::nanoseconds(ns > 200000 ? 200000 : ns > 0 ? ns : 0));
    return true;
}

inline void vr_normalize_signed(std::int64_t& sec, std::int64_t& nsec) {
    std::int64_t n = nsec % 1000000000LL;
    std::int64_t s = sec + nsec / 1000000000LL;
    if (n < 0) { n += 1000000000LL; --s; }
    if (s < std::numeric_limits<std::int32_t>::min() || s > std::numeric_limits<std::int32_t>::max())
        throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = s;
    nsec = n;
}

template<typename T>
struct vr_duration_base {
    std::int32_t sec{0}, nsec{0};
    vr_duration_base() {}
    vr_duration_base(std::int32_t s, std::int32_t n) {
        std::int64_t a = s, b = n;
        vr_normalize_signed(a, b);
        sec = a; nsec = b;
    }
    explicit vr_duration_base(double t) { from_sec(t); }
    T& fromSec(double t) { from_sec(t); return *static_cast<T*>(this); }
    T& fromNSec(std::int64_t t) {
        std::int64_t s = t / 1000000000LL, n = t % 1000000000LL;
        vr_normalize_signed(s, n);
        sec = s; nsec = n;
        return *static_cast<T*>(this);
    }
    double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
    std::int64_t toNSec() const { return static_cast<std::int64_t>(sec) * 1000000000LL + static_cast<std::int64_t>(nsec); }
    bool isZero() const { return sec == 0 && nsec == 0; }
    bool sleep() const { return vr_sleep(toNSec()); }
    T operator+(const T& r) const { T t; return t.fromNSec(toNSec() + r.toNSec()); }
    T operator-(const T& r) const { T t; return t.fromNSec(toNSec() - r.toNSec()); }
    T operator-() const { T t; return t.fromNSec(-toNSec()); }
    T operator*(double s) const { return T(toSec() * s); }
    T& operator+=(const T& r) { return fromNSec(toNSec() + r.toNSec()); }
    T& operator-=(const T& r) { return fromNSec(toNSec() - r.toNSec()); }
    T& operator*=(double s) { return fromSec(toSec() * s); }
    bool operator==(const T& r) const { return sec == r.sec && nsec == r.nsec; }
    bool operator!=(const T& r) const { return !(*this == r); }
    bool operator<(const T& r) const { return toNSec() < r.toNSec(); }
    bool operator>(const T& r) const { return toNSec() > r.toNSec(); }
    bool operator<=(const T& r) const { return toNSec() <= r.toNSec(); }
    bool operator>=(const T& r) const { return toNSec() >= r.toNSec(); }

private:
    void from_sec(double d) {
        const std::int64_t s = static_cast<std::int64_t>(std::floor(d));
        if (s < std::numeric_limits<std::int32_t>::min() || s > std::numeric_limits<std::int32_t>::max())
            throw std::runtime_error("Duration is out of dual 32-bit range");
        sec = static_cast<std::int32_t>(s);
        nsec = static_cast<std::int32_t>(std::round((d - s) * 1e9));
        const int rollover = nsec / 1000000000;
        sec += rollover;
        nsec %= 1000000000;
    }
};
struct Duration : vr_duration_base<Duration> {
    using vr_duration_base<Duration>::vr_duration_base;
    Duration() {}
};
struct WallDuration : vr_duration_base<WallDuration> {
    using vr_duration_base<WallDuration>::vr_duration_base;
    WallDuration() {}
};

template<typename T, typename D>
struct vr_time_base {
    std::uint32_t sec{0}, nsec{0};
    vr_time_base() {}
    vr_time_base(std::uint32_t s, std::uint32_t n) { set(static_cast<std::uint64_t>(s) + n / 1000000000ULL, n % 1000000000ULL); }
    explicit vr_time_base(double t) { fromSec(t); }
    T& fromSec(double t) {
        const std::int64_t s = static_cast<std::int64_t>(std::floor(t));
        if (s < 0 || s > std::numeric_limits<std::uint32_t>::max()) throw std::runtime_error("Time is out of dual 32-bit range");
        std::uint32_t a = static_cast<std::uint32_t>(s), n = static_cast<std::uint32_t>(std::round((t - s) * 1e9));
        a += n / 1000000000UL;
        n %= 1000000000UL;
        sec = a; nsec = n;
        return *static_cast<T*>(this);
    }
    T& fromNSec(std::uint64_t t) {
        set(t / 1000000000ULL, t % 1000000000ULL);
        return *static_cast<T*>(this);
    }
    double toSec() const { return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec); }
    std::uint64_t toNSec() const { return static_cast<std::uint64_t>(sec) * 1000000000ULL + nsec; }
    bool isZero() const { return sec == 0 && nsec == 0; }
    bool is_zero() const { return isZero(); }
    D operator-(const T& r) const { D d; return d.fromNSec(static_cast<std::int64_t>(toNSec()) - static_cast<std::int64_t>(r.toNSec())); }
    T operator+(const D& r) const { return shifted(r.toNSec()); }
    T operator-(const D& r) const { return shifted(-r.toNSec()); }
    T& operator+=(const D& r) { return *static_cast<T*>(this) = shifted(r.toNSec()); }
    T& operator-=(const D& r) { return *static_cast<T*>(this) = shifted(-r.toNSec()); }
    bool operator==(const T& r) const { return sec == r.sec && nsec == r.nsec; }
    bool operator!=(const T& r) const { return !(*this == r); }
    bool operator<(const T& r) const { return toNSec() < r.toNSec(); }
    bool operator>(const T& r) const { return toNSec() > r.toNSec(); }
    bool operator<=(const T& r) const { return toNSec() <= r.toNSec(); }
    bool operator>=(const T& r) const { return toNSec() >= r.toNSec(); }

private:
    void set(std::uint64_t s, std::uint64_t n) {
        if (s > std::numeric_limits<std::uint32_t>::max()) throw std::runtime_error("Time is out of dual 32-bit range");
        sec = static_cast<std::uint32_t>(s);
        nsec = static_cast<std::uint32_t>(n);
    }
    T shifted(std::int64_t ns) const {
        const std::int64_t t = static_cast<std::int64_t>(toNSec()) + ns;
        if (t < 0) throw std::runtime_error("Time is out of dual 32-bit range");
        T r;
        return r.fromNSec(static_cast<std::uint64_t>(t));
    }
};
struct Time : vr_time_base<Time, Duration> {
    using vr_time_base<Time, Duration>::vr_time_base;
    Time() {}
    static std::atomic<std::uint64_t>& vr_now() { static std::atomic<std::uint64_t> t{1000000000ULL}; return t; }
    static Time now() { Time t; return t.fromNSec(vr_now().load()); }
    static void init() {}
    static bool isValid() { return true; }
    static bool waitForValid() { return true; }
};
struct WallTime : vr_time_base<WallTime, WallDuration> {
    using vr_time_base<WallTime, WallDuration>::vr_time_base;
    WallTime() {}
    static WallTime now() {
        WallTime t;
        return t.fromNSec(std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::system_clock::now().time_since_epoch()).count());
    }
};
inline std::ostream& operator<<(std::ostream& os, const Time& t) { char b[32]; std::snprintf(b, 32, "%u.%09u", t.sec, t.nsec); return os << b; }
inline std::ostream& operator<<(std::ostream& os, const WallTime& t) { char b[32]; std::snprintf(b, 32, "%u.%09u", t.sec, t.nsec); return os << b; }
inline std::ostream& operator<<(std::ostream& os, const Duration& t) { return os << t.toSec(); }
inline std::ostream& operator<<(std::ostream& os, const WallDuration& t) { return os << t.toSec(); }
}
