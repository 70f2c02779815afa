#pragma once
#include <ros/ros.h>
#include <tuple>
namespace message_filters {
struct vr_stamp {
    template<typename M>
    static std::uint64_t of(const M& m) { return conv(m.header.stamp); }
    static std::uint64_t conv(const ros::Time& t) { return t.toNSec(); }
    static std::uint64_t conv(std::uint64_t pcl_us) { return pcl_us * 1000ULL; }
};
struct Connection { void disconnect() {} };
template<typename M>
class Subscriber {
public:
    typedef M Message;
    typedef typename M::ConstPtr MConstPtr;
    Subscriber() {}
    Subscriber(ros::NodeHandle& nh, const std::string& topic, std::uint32_t q) { subscribe(nh, topic, q); }
    Subscriber(const Subscriber&) = delete;
    Subscriber& operator=(const Subscriber&) = delete;
    void subscribe(ros::NodeHandle& nh, const std::string& topic, std::uint32_t q) {
        s = nh.sub<MConstPtr>(topic, q, [this](MConstPtr& m) { for (auto& f : fs) f(m); });
    }
    void unsubscribe() { s.shutdown(); }
    std::string getTopic() const { return s.getTopic(); }
    template<typename F>
    Connection registerCallback(const F& f) { fs.push_back(f); return Connection(); }
    void vr_connect(std::function<void(const MConstPtr&)> f) { fs.push_back(f); }

private:
    std::vector<std::function<void(const MConstPtr&)>> fs;
    ros::Subscriber s;
};
// Exact-time policy, with message_filters' semantics: callbacks run under the synchroniser's lock, a completed set discards older partial sets.
template<typename... M>
class TimeSynchronizer {
public:
    typedef std::tuple<typename M::ConstPtr...> Tuple;
    explicit TimeSynchronizer(std::uint32_t q) : limit(q) {}
    template<typename... F>
    TimeSynchronizer(F&... f, std::uint32_t q) : limit(q) { connectInput(f...); }
    TimeSynchronizer(const TimeSynchronizer&) = delete;
    template<typename... F>
    void connectInput(F&... f) { connect(std::index_sequence_for<M...>{}, f...); }
    template<typename C>
    Connection registerCallback(const C& c) {
        std::lock_guard<std::mutex> l(m);
        cbs.push_back([c](const Tuple& t) mutable { std::apply(c, t); });
        return Connection();
    }
    template<typename T, typename U, typename... A>
    Connection registerCallback(void (T::*f)(A...), U* o) {
        std::lock_guard<std::mutex> l(m);
        cbs.push_back([f, o](const Tuple& t) { std::apply([&](auto&... a) { (static_cast<T*>(o)->*f)(a...); }, t); });
        return Connection();
    }

private:
    template<std::size_t... I, typename... F>
    void connect(std::index_sequence<I...>, F&... f) {
        (f.vr_connect([this](const typename std::tuple_element<I, Tuple>::type& x) { this->template add<I>(x); }), ...);
    }
    template<std::size_t I, typename P>
    void add(const P& p) {
        std::lock_guard<std::mutex> l(m);
        const std::uint64_t t = vr_stamp::of(*p);
        Tuple& e = pending[t];
        std::get<I>(e) = p;
        const bool full = std::apply([](auto&... x) { return (static_cast<bool>(x) && ...); }, e);
        if (full) {
            const Tuple done = e;
            last = t;
            for (auto& c : cbs) c(done);
            pending.erase(t);
            while (!pending.empty() && pending.begin()->first <= last) pending.erase(pending.begin());
        }
        if (limit) while (pending.size() > limit) pending.erase(pending.begin());
    }
    std::mutex m;
    std::map<std::uint64_t, Tuple> pending;
    std::uint64_t last = 0;
    std::uint32_t limit;
    std::vector<std::function<void(const Tuple&)>> cbs;
};
}
