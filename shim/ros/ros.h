// In-process stand-in for roscpp: typed topics with bounded per-subscription FIFO queues, latching, services, parameters.
// The harness drives delivery (vros::spin_all / spin_random / Spinner) and reads what was published (vros::log()).
#pragma once
#include <ros/time.h>
#include <ros/xmlrpc.hpp>

#include <std_msgs/Header.h>
#include <sensor_msgs/PointCloud2.h>

#include <atomic>
#include <condition_variable>
#include <cstdarg>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <thread>
#include <typeindex>
#include <vector>
#include <boost/function.hpp>
#include <boost/shared_ptr.hpp>

#ifndef VROS_NO_PCL
#include <ros/pcl_bridge.hpp>
#endif

namespace vros {

// ---- canonical message representation -------------------------------------------------------------------------------
template<typename M>
struct Canon {
    typedef M type;
    static std::shared_ptr<const M> to(const M& m) { return std::shared_ptr<const M>(new M(m)); }
    static std::shared_ptr<M> from(const M& m) { return std::shared_ptr<M>(new M(m)); }
};
#ifndef VROS_NO_PCL
template<>
struct Canon<pcl::PCLPointCloud2> {
    typedef sensor_msgs::PointCloud2 type;
    static std::shared_ptr<const type> to(const pcl::PCLPointCloud2& m) { auto r = std::shared_ptr<type>(new type); vr_pcl::fromPCL(m, *r); return r; }
    static std::shared_ptr<pcl::PCLPointCloud2> from(const type& m) { std::shared_ptr<pcl::PCLPointCloud2> r(new pcl::PCLPointCloud2); vr_pcl::toPCL(m, *r); return r; }
};
template<typename P>
struct Canon<pcl::PointCloud<P>> {
    typedef sensor_msgs::PointCloud2 type;
    static std::shared_ptr<const type> to(const pcl::PointCloud<P>& m) {
        pcl::PCLPointCloud2 c;
        pcl::toPCLPointCloud2(m, c);
        return Canon<pcl::PCLPointCloud2>::to(c);
    }
    static std::shared_ptr<pcl::PointCloud<P>> from(const type& m) {
        auto c = Canon<pcl::PCLPointCloud2>::from(m);
        std::shared_ptr<pcl::PointCloud<P>> r(new pcl::PointCloud<P>);
        pcl::fromPCLPointCloud2(*c, *r);
        return r;
    }
};
#endif

struct Payload {
    std::shared_ptr<const void> data;
    std::type_index type{typeid(void)};
    template<typename M>
    const M* get() const { return type == std::type_index(typeid(M)) ? static_cast<const M*>(data.get()) : nullptr; }
};
struct Record {
    std::uint64_t seq;
    std::string topic;
    Payload msg;
    std::thread::id thread;
};

template<typename A>
struct ArgTraits { typedef A msg; static A make(const std::shared_ptr<A>& p, const std::shared_ptr<const A>&) { return *p; } };
template<typename X>
struct ArgTraits<boost::shared_ptr<X>> {
    typedef typename std::remove_const<X>::type msg;
    static boost::shared_ptr<X> make(const std::shared_ptr<msg>& p) { return boost::shared_ptr<X>(p.get(), [p](X*) {}); }
    static boost::shared_ptr<const msg> share(const std::shared_ptr<const msg>& p) { return boost::shared_ptr<const msg>(p.get(), [p](const msg*) {}); }
};
template<typename X>
struct ArgTraits<std::shared_ptr<X>> {
    typedef typename std::remove_const<X>::type msg;
    static std::shared_ptr<X> make(const std::shared_ptr<msg>& p) { return p; }
    static std::shared_ptr<const msg> share(const std::shared_ptr<const msg>& p) { return p; }
};
template<typename A>
struct is_ptr : std::false_type {};
template<typename X>
struct is_ptr<boost::shared_ptr<X>> : std::true_type {};
template<typename X>
struct is_ptr<std::shared_ptr<X>> : std::true_type {};

// Calls f with the payload converted to what the callback's argument type wants.
template<typename Arg, typename F>
bool deliver(const Payload& p, F&& f) {
    typedef typename std::remove_cv<typename std::remove_reference<Arg>::type>::type A;
    typedef typename ArgTraits<A>::msg M;
    typedef typename Canon<M>::type C;
    const C* c = p.get<C>();
    if (!c) return false;
    if constexpr (is_ptr<A>::value) {
        if constexpr (std::is_same<C, M>::value && std::is_const<typename A::element_type>::value) {
            A a = ArgTraits<A>::share(std::shared_ptr<const M>(p.data, c));
            f(a);
        } else {
            A a = ArgTraits<A>::make(Canon<M>::from(*c));
            f(a);
        }
    } else {
        auto m = Canon<M>::from(*c);
        f(*m);
    }
    return true;
}

struct Subscription {
    std::string topic;
    std::size_t limit = 0;
    std::deque<Payload> queue;       // guarded by Bus::m
    bool active = true;              // guarded by Bus::m
    bool busy = false;               // guarded by Bus::m
    std::function<bool(const Payload&)> call;
    std::uint64_t id = 0;
};

class Bus {
public:
    static Bus& get() { static Bus* b = new Bus; return *b; }
    void reset() {
        std::lock_guard<std::mutex> l(m);
        subs.clear(); latched.clear(); ready.clear(); records.clear(); errors.clear(); services.clear(); params.clear(); advertised.clear();
        dropped = 0; delivered = 0; logging = true; stopped = false;
        tf_lookup = nullptr;
        ros::Time::vr_now() = 1000000000ULL;
    }
    void error(const std::string& e) { std::lock_guard<std::mutex> l(m); errors.push_back(e); }
    void publish(const std::string& topic, const Payload& p, bool latch) {
        std::lock_guard<std::mutex> l(m);
        if (logging) records.push_back(Record{seq, topic, p, std::this_thread::get_id()});
        ++seq;
        if (latch) latched[topic] = p;
        auto it = subs.find(topic);
        if (it == subs.end()) return;
        for (auto& s : it->second) push(s, p);
        cv.notify_all();
    }
    void subscribe(const std::shared_ptr<Subscription>& s) {
        std::lock_guard<std::mutex> l(m);
        s->id = ++next_id;
        subs[s->topic].push_back(s);
        auto it = latched.find(s->topic);
        if (it != latched.end()) push(s, it->second);
        cv.notify_all();
    }
    void unsubscribe(const std::shared_ptr<Subscription>& s) {
        std::unique_lock<std::mutex> l(m);
        s->active = false;
        auto& v = subs[s->topic];
        for (std::size_t i = 0; i < v.size(); ++i) if (v[i] == s) { v.erase(v.begin() + i); break; }
    }
    // Runs the callback of the k-th runnable entry (0 = oldest). Returns false when nothing is runnable.
    template<typename Pick>
    bool step(Pick pick) {
        std::shared_ptr<Subscription> s;
        Payload p;
        {
            std::lock_guard<std::mutex> l(m);
            std::vector<std::size_t> runnable;
            std::vector<Subscription*> seen;
            for (std::size_t i = 0; i < ready.size(); ++i) {
                Subscription* q = ready[i].get();
                bool dup = q->busy;
                for (auto* x : seen) dup |= x == q;
                if (!dup) { runnable.push_back(i); seen.push_back(q); }
            }
            if (runnable.empty()) return false;
            const std::size_t k = runnable[pick(runnable.size())];
            s = ready[k];
            ready.erase(ready.begin() + k);
            if (s->queue.empty()) return true;
            p = s->queue.front();
            s->queue.pop_front();
            if (!s->active) return true;
            s->busy = true;
            ++running;
            ++delivered;
            if (running > 1)
                for (auto& t : subs)
                    for (auto& o : t.second)
                        if (o->busy && o != s) overlaps.insert(std::hash<std::string>()(std::min(o->topic, s->topic)) * 31 + std::hash<std::string>()(std::max(o->topic, s->topic)));
        }
        struct Done { Bus* b; Subscription* s; ~Done() { std::lock_guard<std::mutex> l(b->m); s->busy = false; --b->running; b->cv.notify_all(); } } done{this, s.get()};
        if (!s->call(p)) error("message of a different type delivered on topic " + s->topic);
        return true;
    }
    std::mutex m;
    std::condition_variable cv;
    std::map<std::string, std::vector<std::shared_ptr<Subscription>>> subs;
    std::map<std::string, Payload> latched;
    std::deque<std::shared_ptr<Subscription>> ready;
    std::vector<Record> records;
    std::vector<std::string> errors;
    std::map<std::string, std::function<bool(std::type_index, void*, void*)>> services;
    std::map<std::string, XmlRpc::XmlRpcValue> params;
    std::map<std::string, std::type_index> advertised;
    std::function<bool(const std::string&, const std::string&, const ros::Time&, void*)> tf_lookup;
    std::uint64_t seq = 0, next_id = 0, dropped = 0, delivered = 0;
    std::set<std::uint64_t> overlaps;  // pairs of subscriptions whose callbacks ran at the same time
    int running = 0;
    bool logging = true, stopped = false;

private:
    void push(const std::shared_ptr<Subscription>& s, const Payload& p) {
        if (s->limit && s->queue.size() >= s->limit) {
            s->queue.pop_front();
            ++dropped;
            s->queue.push_back(p);
            return;  // entry count in `ready` unchanged
        }
        s->queue.push_back(p);
        ready.push_back(s);
    }
};

inline std::string resolve(const std::string& ns, const std::string& name) {
    if (!name.empty() && name[0] == '/') return name;
    return ns.empty() ? "/" + name : "/" + ns + "/" + name;
}
inline void reset() { Bus::get().reset(); }
inline std::vector<Record>& log() { return Bus::get().records; }
inline void spin_all(std::size_t limit = 1000000) { while (limit-- && Bus::get().step([](std::size_t) { return std::size_t(0); })) {} }
template<typename R>
void spin_random(R& rng, std::size_t limit = 1000000) {
    while (limit-- && Bus::get().step([&](std::size_t n) { return static_cast<std::size_t>(rng.next() % n); })) {}
}
template<typename T>
void set_param(const std::string& name, const T& v) {
    std::lock_guard<std::mutex> l(Bus::get().m);
    Bus::get().params[resolve("", name)] = XmlRpc::XmlRpcValue(v);
}
template<typename E>
void set_param(const std::string& name, const std::vector<E>& v) {
    XmlRpc::XmlRpcValue x;
    x.setSize(0);
    for (std::size_t i = 0; i < v.size(); ++i) x[static_cast<int>(i)] = XmlRpc::XmlRpcValue(v[i]);
    std::lock_guard<std::mutex> l(Bus::get().m);
    Bus::get().params[resolve("", name)] = x;
}
// Publishes from the harness.
template<typename M>
void send(const std::string& topic, const M& msg) {
    Payload p;
    p.data = Canon<M>::to(msg);
    p.type = typeid(typename Canon<M>::type);
    Bus::get().publish(resolve("", topic), p, false);
}
// All messages of canonical type M published on a topic.
template<typename M>
std::vector<std::shared_ptr<const M>> received(const std::string& topic, std::uint64_t since = 0) {
    std::vector<std::shared_ptr<const M>> r;
    std::lock_guard<std::mutex> l(Bus::get().m);
    for (auto& e : Bus::get().records)
        if (e.topic == resolve("", topic) && e.seq >= since)
            if (const M* p = e.msg.get<M>()) r.push_back(std::shared_ptr<const M>(e.msg.data, p));
    return r;
}
template<typename S>
bool call(const std::string& name, S& srv) {
    std::function<bool(std::type_index, void*, void*)> f;
    {
        std::lock_guard<std::mutex> l(Bus::get().m);
        auto it = Bus::get().services.find(resolve("", name));
        if (it == Bus::get().services.end()) return false;
        f = it->second;
    }
    return f(typeid(typename S::Request), &srv.request, &srv.response);
}

// Several worker threads draining the callback queue (one subscription never runs concurrently with itself, as in roscpp).
class Spinner {
public:
    explicit Spinner(int n) {
        for (int i = 0; i < n; ++i) threads.emplace_back([this] { work(); });
    }
    ~Spinner() {
        { std::lock_guard<std::mutex> l(Bus::get().m); stop = true; }
        Bus::get().cv.notify_all();
        for (auto& t : threads) t.join();
    }
    // Waits until the queue is empty and no callback runs; false on timeout.
    bool wait_idle(int ms = 20000) {
        std::unique_lock<std::mutex> l(Bus::get().m);
        return Bus::get().cv.wait_for(l, std::chrono::milliseconds(ms), [] { return Bus::get().ready.empty() && Bus::get().running == 0; });
    }
    std::vector<std::string> exceptions() { std::lock_guard<std::mutex> l(em); return ex; }

private:
    void work() {
        Bus& b = Bus::get();
        for (;;) {
            bool did = false;
            try {
                did = b.step([](std::size_t) { return std::size_t(0); });
            } catch (const std::exception& e) {
                std::lock_guard<std::mutex> l(em);
                ex.push_back(e.what());
                did = true;
            }
            if (did) continue;
            std::unique_lock<std::mutex> l(b.m);
            if (stop) return;
            b.cv.wait_for(l, std::chrono::milliseconds(2));
            if (stop) return;
        }
    }
    bool stop = false;
    std::vector<std::thread> threads;
    std::mutex em;
    std::vector<std::string> ex;
};

inline std::atomic<std::uint64_t>& warnings() { static std::atomic<std::uint64_t> n{0}; return n; }
inline void write_log(int level, const std::string& s) {
    if (level >= 2) warnings().fetch_add(1, std::memory_order_relaxed);
    if (getenv("VROS_VERBOSE")) std::fprintf(stderr, "[log %d] %s\n", level, s.c_str());
}
inline std::string format(const char* f, ...) {
    char b[1024];
    va_list ap;
    va_start(ap, f);
    std::vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}

// parameter conversion with roscpp's rules
inline bool get(const XmlRpc::XmlRpcValue& v, bool& o) { if (v.getType() != v.TypeBoolean) return false; o = (const bool&)v; return true; }
inline bool get(const XmlRpc::XmlRpcValue& v, int& o) {
    if (v.getType() == v.TypeInt) { o = (const int&)v; return true; }
    if (v.getType() == v.TypeDouble) { const double d = (const double&)v; o = static_cast<int>(std::lround(d)); return true; }
    return false;
}
inline bool get(const XmlRpc::XmlRpcValue& v, double& o) {
    if (v.getType() == v.TypeInt) { o = (const int&)v; return true; }
    if (v.getType() == v.TypeDouble) { o = (const double&)v; return true; }
    return false;
}
inline bool get(const XmlRpc::XmlRpcValue& v, float& o) { double d; if (!get(v, d)) return false; o = static_cast<float>(d); return true; }
inline bool get(const XmlRpc::XmlRpcValue& v, std::string& o) { if (v.getType() != v.TypeString) return false; o = (const std::string&)v; return true; }
inline bool get(const XmlRpc::XmlRpcValue& v, XmlRpc::XmlRpcValue& o) { o = v; return true; }
template<typename T>
bool get(const XmlRpc::XmlRpcValue& v, std::vector<T>& o) {
    if (v.getType() != v.TypeArray) return false;
    std::vector<T> r(v.size());
    for (int i = 0; i < v.size(); ++i) { T t; if (!get(v[i], t)) return false; r[i] = t; }
    o = r;
    return true;
}
template<typename T>
bool get(const XmlRpc::XmlRpcValue& v, std::map<std::string, T>& o) {
    if (v.getType() != v.TypeStruct) return false;
    std::map<std::string, T> r;
    for (auto it = v.begin(); it != v.end(); ++it) { T t; if (!get(it->second, t)) return false; r[it->first] = t; }
    o = r;
    return true;
}
}

namespace ros {

class Publisher {
public:
    Publisher() {}
    template<typename M>
    void publish(const boost::shared_ptr<M>& m) const { send<typename std::remove_const<M>::type>(*m); }
    template<typename M>
    void publish(const std::shared_ptr<M>& m) const { send<typename std::remove_const<M>::type>(*m); }
    template<typename M>
    void publish(const M& m) const { send<M>(m); }
    std::string getTopic() const { return topic; }
    bool isLatched() const { return latch; }
    std::uint32_t getNumSubscribers() const {
        if (topic.empty()) return 0;
        auto& b = vros::Bus::get();
        std::lock_guard<std::mutex> l(b.m);
        auto it = b.subs.find(topic);
        // the harness always listens
        return 1 + (it == b.subs.end() ? 0 : static_cast<std::uint32_t>(it->second.size()));
    }
    void shutdown() { topic.clear(); }
    operator void*() const { return topic.empty() ? nullptr : const_cast<Publisher*>(this); }
    bool operator==(const Publisher& o) const { return topic == o.topic; }

    std::string topic;
    std::type_index type{typeid(void)};
    bool latch = false;

private:
    template<typename M>
    void send(const M& m) const {
        typedef typename vros::Canon<M>::type C;
        if (topic.empty()) { vros::Bus::get().error("publish on a publisher that was never advertised"); return; }
        if (type != std::type_index(typeid(C))) { vros::Bus::get().error("publish of a different type than advertised on " + topic); return; }
        vros::Payload p;
        p.data = vros::Canon<M>::to(m);
        p.type = typeid(C);
        vros::Bus::get().publish(topic, p, latch);
    }
};

class Subscriber {
public:
    Subscriber() {}
    explicit Subscriber(const std::shared_ptr<vros::Subscription>& s_)
        : s(s_.get(), [s_](vros::Subscription*) { vros::Bus::get().unsubscribe(s_); }) {}
    std::string getTopic() const { return s ? s->topic : ""; }
    std::uint32_t getNumPublishers() const { return s ? 1 : 0; }
    void shutdown() { s.reset(); }
    operator void*() const { return s.get(); }

private:
    std::shared_ptr<vros::Subscription> s;
};

class ServiceServer {
public:
    ServiceServer() {}
    explicit ServiceServer(const std::string& n) : name(n) {}
    std::string getService() const { return name; }
    void shutdown() { name.clear(); }
    operator void*() const { return name.empty() ? nullptr : const_cast<ServiceServer*>(this); }

private:
    std::string name;
};

struct TransportHints {
    TransportHints& tcpNoDelay(bool = true) { return *this; }
    TransportHints& unreliable() { return *this; }
    TransportHints& reliable() { return *this; }
};
typedef std::map<std::string, std::string> M_string;

class NodeHandle {
public:
    NodeHandle(const std::string& ns_ = "", const M_string& = M_string()) : ns(ns_) {}
    NodeHandle(const NodeHandle& parent, const std::string& n) : ns(parent.ns.empty() ? n : parent.ns + "/" + n) {}
    NodeHandle(const NodeHandle&) = default;
    NodeHandle& operator=(const NodeHandle&) = default;

    template<typename M>
    Publisher advertise(const std::string& topic, std::uint32_t, bool latch = false) const {
        Publisher p;
        p.topic = vros::resolve(ns, topic);
        p.type = typeid(typename vros::Canon<M>::type);
        p.latch = latch;
        std::lock_guard<std::mutex> l(vros::Bus::get().m);
        auto it = vros::Bus::get().advertised.emplace(p.topic, p.type);
        if (it.first->second != p.type) vros::Bus::get().errors.push_back("topic advertised with two types: " + p.topic);
        return p;
    }
    template<typename M, typename Arg, typename T, typename U>
    Subscriber subscribe(const std::string& topic, std::uint32_t q, void (T::*f)(Arg), U* o, const TransportHints& = TransportHints()) const {
        return sub<Arg>(topic, q, [f, o](auto&& a) { (static_cast<T*>(o)->*f)(a); });
    }
    template<typename M, typename Arg, typename T, typename U>
    Subscriber subscribe(const std::string& topic, std::uint32_t q, void (T::*f)(Arg) const, U* o, const TransportHints& = TransportHints()) const {
        return sub<Arg>(topic, q, [f, o](auto&& a) { (static_cast<T*>(o)->*f)(a); });
    }
    template<typename Arg, typename T, typename U>
    Subscriber subscribe(const std::string& topic, std::uint32_t q, void (T::*f)(Arg), U* o, const TransportHints& = TransportHints()) const {
        return sub<Arg>(topic, q, [f, o](auto&& a) { (static_cast<T*>(o)->*f)(a); });
    }
    template<typename Arg, typename T, typename U>
    Subscriber subscribe(const std::string& topic, std::uint32_t q, void (T::*f)(Arg) const, U* o, const TransportHints& = TransportHints()) const {
        return sub<Arg>(topic, q, [f, o](auto&& a) { (static_cast<T*>(o)->*f)(a); });
    }
    template<typename M>
    Subscriber subscribe(const std::string& topic, std::uint32_t q, const boost::function<void(const typename M::ConstPtr&)>& f) const {
        return sub<typename M::ConstPtr>(topic, q, f);
    }
    template<typename Arg>
    Subscriber sub(const std::string& topic, std::uint32_t q, std::function<void(typename std::remove_cv<typename std::remove_reference<Arg>::type>::type&)> f) const {
        auto s = std::shared_ptr<vros::Subscription>(new vros::Subscription);
        s->topic = vros::resolve(ns, topic);
        s->limit = q;
        s->call = [f](const vros::Payload& p) { return vros::deliver<Arg>(p, f); };
        vros::Bus::get().subscribe(s);
        return Subscriber(s);
    }
    template<typename T, typename U, typename Rq, typename Rs>
    ServiceServer advertiseService(const std::string& name, bool (T::*f)(Rq&, Rs&), U* o) const {
        const std::string n = vros::resolve(ns, name);
        std::lock_guard<std::mutex> l(vros::Bus::get().m);
        vros::Bus::get().services[n] = [f, o](std::type_index t, void* rq, void* rs) {
            if (t != std::type_index(typeid(Rq))) throw std::logic_error("service called with another type");
            return (static_cast<T*>(o)->*f)(*static_cast<Rq*>(rq), *static_cast<Rs*>(rs));
        };
        return ServiceServer(n);
    }
    template<typename T>
    bool getParam(const std::string& name, T& v) const {
        std::lock_guard<std::mutex> l(vros::Bus::get().m);
        auto it = vros::Bus::get().params.find(vros::resolve(ns, name));
        return it != vros::Bus::get().params.end() && vros::get(it->second, v);
    }
    bool hasParam(const std::string& name) const {
        std::lock_guard<std::mutex> l(vros::Bus::get().m);
        return vros::Bus::get().params.count(vros::resolve(ns, name)) > 0;
    }
    template<typename T>
    void setParam(const std::string& name, const T& v) const { vros::set_param(vros::resolve(ns, name), v); }
    template<typename T>
    bool param(const std::string& name, T& v, const T& def) const {
        if (getParam(name, v)) return true;
        v = def;
        return false;
    }
    template<typename T>
    T param(const std::string& name, const T& def) const {
        T v;
        param<T>(name, v, def);
        return v;
    }
    const std::string& getNamespace() const { return ns; }
    std::string resolveName(const std::string& n, bool = true) const { return vros::resolve(ns, n); }
    bool ok() const { return true; }

private:
    std::string ns;
};

namespace topic {
template<typename M>
boost::shared_ptr<M const> waitForMessage(const std::string& t, const NodeHandle& nh, const Duration& = Duration()) {
    auto& b = vros::Bus::get();
    vros::Payload p;
    {
        std::lock_guard<std::mutex> l(b.m);
        auto it = b.latched.find(nh.resolveName(t));
        if (it == b.latched.end()) return boost::shared_ptr<M const>();
        p = it->second;
    }
    auto* c = p.get<typename vros::Canon<M>::type>();
    if (!c) return boost::shared_ptr<M const>();
    auto m = vros::Canon<M>::from(*c);
    return boost::shared_ptr<M const>(m.get(), [m](M const*) {});
}
template<typename M>
boost::shared_ptr<M const> waitForMessage(const std::string& t, const Duration& d = Duration()) { return waitForMessage<M>(t, NodeHandle(), d); }
}

inline void init(int&, char**, const std::string&, std::uint32_t = 0) {}
inline bool ok() { std::lock_guard<std::mutex> l(vros::Bus::get().m); return !vros::Bus::get().stopped; }
inline void shutdown() { std::lock_guard<std::mutex> l(vros::Bus::get().m); vros::Bus::get().stopped = true; }
inline void spin() {}
inline void spinOnce() {}
// What a node's main does while it waits: set by harnesses that run a whole main; called with the number of threads the node started.
inline std::function<void(int)>& vr_on_wait() { static std::function<void(int)> f; return f; }
inline int& vr_spinner_threads() { static int n = 0; return n; }
inline void waitForShutdown() { if (vr_on_wait()) vr_on_wait()(vr_spinner_threads()); }
struct AsyncSpinner {
    std::uint32_t n;
    explicit AsyncSpinner(std::uint32_t n) : n(n) {}
    void start() { vr_spinner_threads() = static_cast<int>(n); }
    void stop() {}
};
struct Rate {
    explicit Rate(double) {}
    bool sleep() { return true; }
};
}

#define VROS_STREAM(level, args) do { std::ostringstream vros_ss; vros_ss << args; ::vros::write_log(level, vros_ss.str()); } while (0)
#define VROS_PRINTF(level, ...) do { ::vros::write_log(level, ::vros::format(__VA_ARGS__)); } while (0)
#define ROS_DEBUG_STREAM(args) do { if (false) VROS_STREAM(0, args); } while (0)
#define ROS_INFO_STREAM(args) VROS_STREAM(1, args)
#define ROS_WARN_STREAM(args) VROS_STREAM(2, args)
#define ROS_ERROR_STREAM(args) VROS_STREAM(3, args)
#define ROS_FATAL_STREAM(args) VROS_STREAM(4, args)
#define ROS_DEBUG(...) do { if (false) VROS_PRINTF(0, __VA_ARGS__); } while (0)
#define ROS_INFO(...) VROS_PRINTF(1, __VA_ARGS__)
#define ROS_WARN(...) VROS_PRINTF(2, __VA_ARGS__)
#define ROS_ERROR(...) VROS_PRINTF(3, __VA_ARGS__)
#define ROS_FATAL(...) VROS_PRINTF(4, __VA_ARGS__)
#define ROS_DEBUG_COND(c, ...) do { if (false && (c)) VROS_PRINTF(0, __VA_ARGS__); } while (0)
#define ROS_INFO_COND(c, ...) do { if (c) VROS_PRINTF(1, __VA_ARGS__); } while (0)
#define ROS_WARN_COND(c, ...) do { if (c) VROS_PRINTF(2, __VA_ARGS__); } while (0)
#define ROS_ERROR_COND(c, ...) do { if (c) VROS_PRINTF(3, __VA_ARGS__); } while (0)
#define ROS_DEBUG_STREAM_COND(c, args) do { if (false && (c)) VROS_STREAM(0, args); } while (0)
#define ROS_INFO_STREAM_COND(c, args) do { if (c) VROS_STREAM(1, args); } while (0)
#define ROS_WARN_STREAM_COND(c, args) do { if (c) VROS_STREAM(2, args); } while (0)
#define ROS_ERROR_STREAM_COND(c, args) do { if (c) VROS_STREAM(3, args); } while (0)
#define ROS_DEBUG_ONCE(...) ROS_DEBUG(__VA_ARGS__)
#define ROS_INFO_ONCE(...) ROS_INFO(__VA_ARGS__)
#define ROS_WARN_ONCE(...) ROS_WARN(__VA_ARGS__)
#define ROS_INFO_STREAM_ONCE(args) ROS_INFO_STREAM(args)
#define ROS_WARN_STREAM_ONCE(args) ROS_WARN_STREAM(args)
#define ROS_INFO_STREAM_THROTTLE(p, args) ROS_INFO_STREAM(args)
#define ROS_WARN_STREAM_THROTTLE(p, args) ROS_WARN_STREAM(args)
#define ROS_DEBUG_STREAM_THROTTLE(p, args) ROS_DEBUG_STREAM(args)
#define ROS_FATAL_COND(c, ...) do { if (c) VROS_PRINTF(4, __VA_ARGS__); } while (0)
#define ROS_FATAL_STREAM_COND(c, args) do { if (c) VROS_STREAM(4, args); } while (0)
#define ROS_ERROR_ONCE(...) ROS_ERROR(__VA_ARGS__)
#define ROS_ERROR_STREAM_ONCE(args) ROS_ERROR_STREAM(args)
#define ROS_DEBUG_STREAM_ONCE(args) ROS_DEBUG_STREAM(args)
#define ROS_ERROR_STREAM_THROTTLE(p, args) ROS_ERROR_STREAM(args)
#define ROS_DEBUG_THROTTLE(p, ...) ROS_DEBUG(__VA_ARGS__)
#define ROS_INFO_THROTTLE(p, ...) ROS_INFO(__VA_ARGS__)
#define ROS_WARN_THROTTLE(p, ...) ROS_WARN(__VA_ARGS__)
#define ROS_ERROR_THROTTLE(p, ...) ROS_ERROR(__VA_ARGS__)
#define ROS_DEBUG_NAMED(n, ...) ROS_DEBUG(__VA_ARGS__)
#define ROS_INFO_NAMED(n, ...) ROS_INFO(__VA_ARGS__)
#define ROS_WARN_NAMED(n, ...) ROS_WARN(__VA_ARGS__)
#define ROS_ERROR_NAMED(n, ...) ROS_ERROR(__VA_ARGS__)
#define ROS_DEBUG_STREAM_NAMED(n, args) ROS_DEBUG_STREAM(args)
#define ROS_INFO_STREAM_NAMED(n, args) ROS_INFO_STREAM(args)
#define ROS_WARN_STREAM_NAMED(n, args) ROS_WARN_STREAM(args)
#define ROS_ERROR_STREAM_NAMED(n, args) ROS_ERROR_STREAM(args)
#define ROS_ASSERT(c) do { if (!(c)) { VROS_PRINTF(4, "assertion failed: %s", #c); std::abort(); } } while (0)
#define ROS_ASSERT_MSG(c, ...) do { if (!(c)) { VROS_PRINTF(4, __VA_ARGS__); std::abort(); } } while (0)
