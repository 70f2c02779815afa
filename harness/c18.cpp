// C18: IMU buffering, preintegration and sensor interpolation.
#include <ros/ros.h>

#include <gtsam/navigation/CombinedImuFactor.h>
#include <eigen_ros/imu.hpp>
#include <serpent/utils/utilities.hpp>
#include <serpent/utils/ros_conversion.hpp>
#include "ref.hpp"
#include "vr.hpp"

using vr::Rng;
typedef std::uint64_t ns_t;
static ros::Time T(ns_t n) { ros::Time t; return t.fromNSec(n); }

static Eigen::Vector3d vec(Rng& r, double s) { return Eigen::Vector3d(s * r.gauss(), s * r.gauss(), s * r.gauss()); }
static Eigen::Matrix3d spd(Rng& r) {
    Eigen::Matrix3d a;
    for (int i = 0; i < 9; ++i) a(i / 3, i % 3) = r.gauss();
    Eigen::Matrix3d m = a * a.transpose() + 0.1 * Eigen::Matrix3d::Identity();
    return 0.5 * (m + m.transpose());
}
static Eigen::Quaterniond quat(Rng& r) {
    Eigen::Vector4d v(r.gauss(), r.gauss(), r.gauss(), r.gauss());
    v /= v.norm();
    return Eigen::Quaterniond(v[0], v[1], v[2], v[3]);
}
static eigen_ros::Imu imu(Rng& r, ns_t t) {
    return eigen_ros::Imu(quat(r), vec(r, 0.7), vec(r, 5.0), spd(r), spd(r), spd(r), T(t), r.chance(0.5) ? "imu" : "imu_b");
}
static std::string when(const std::vector<ns_t>& st, ns_t a, ns_t b) {
    std::ostringstream o;
    o << "start " << a << " end " << b << " stamps";
    for (auto s : st) o << " " << s;
    return o.str();
}

static boost::shared_ptr<gtsam::PreintegrationCombinedParams> params(Rng& r) {
    auto p = gtsam::PreintegrationCombinedParams::MakeSharedU(9.81);
    p->setAccelerometerCovariance(spd(r) * 1e-3);
    p->setGyroscopeCovariance(spd(r) * 1e-4);
    p->setIntegrationCovariance(spd(r) * 1e-6);
    return p;
}

static void integrate(Rng& r) {
    // Strictly increasing stamps; start and end anywhere, often exactly on a stamp.
    const ns_t base = r.chance(0.3) ? 1000000000ull : 1600000000000000000ull + r.next() % 100000000000ull;
    const int n = r.chance(0.05) ? r.integer(15, 400) : r.integer(2, 14);
    std::vector<ns_t> st;
    ns_t t = base;
    for (int i = 0; i < n; ++i) {
        st.push_back(t);
        t += r.chance(0.1) ? 1 + r.next() % 3 : n < 15 && r.chance(0.1) ? 900000000ull + r.next() % 300000000ull : 1000000ull + r.next() % 20000000ull;
    }
    auto pick = [&](ns_t lo, ns_t hi) { return lo + r.next() % (hi - lo + 1); };
    ns_t start, end;
    const int sk = r.integer(0, 3);
    if (sk == 0) start = st[r.integer(0, n - 1)];
    else if (sk == 1) start = st[0];
    else start = pick(st[0], st[n - 1] + 20000000);
    const int ek = r.integer(0, 4);
    std::vector<ns_t> later;
    for (auto s : st) if (s > start) later.push_back(s);
    if (ek <= 1 && !later.empty()) end = later[r.integer(0, later.size() - 1)];
    else if (ek == 2) end = start + 1 + r.next() % 1000;
    else if (ek == 3 && !later.empty()) end = later.back() + 1 + r.next() % 30000000;
    else end = start + 1 + r.next() % 60000000;
    std::deque<eigen_ros::Imu> buf;
    for (auto s : st) buf.push_back(imu(r, s));
    auto p = params(r);
    const gtsam::imuBias::ConstantBias bias(vec(r, 0.1), vec(r, 0.05));
    gtsam::PreintegratedCombinedMeasurements got(p, bias), want(p, bias);
    // accumulated state before this call must be kept
    const bool chained = r.chance(0.3);
    if (chained) {
        const auto a = vec(r, 2), w = vec(r, 0.3);
        got.integrateMeasurement(a, w, 0.01);
        want.integrateMeasurement(a, w, 0.01);
    }
    // The measurement in force at time t is the last one stamped at or before t.
    double total = chained ? 0.01 : 0.0;
    int segments = 0;
    ns_t at = start;
    while (at < end) {
        int k = -1;
        for (int i = 0; i < n; ++i) if (st[i] <= at) k = i;
        const ns_t to = (k + 1 < n && st[k + 1] < end) ? st[k + 1] : end;
        const double dt = static_cast<double>(to - at) * 1e-9;
        want.integrateMeasurement(buf[k].linear_acceleration, buf[k].angular_velocity, dt);
        total += dt;
        at = to;
        ++segments;
    }
    const std::string d = when(st, start, end);
    const bool end_on_stamp = std::find(st.begin(), st.end(), end) != st.end();
    if (!vr::expect_no_throw([&] { serpent::integrate_imu(got, buf, T(start), T(end)); }, end_on_stamp ? "integrate-end-on-stamp" : "integrate-throws", d)) return;
    vr::event("intervals_integrated");
    if (end_on_stamp) vr::event("end_exactly_on_measurement");
    if (std::find(st.begin(), st.end(), start) != st.end()) vr::event("start_exactly_on_measurement");
    if (st.back() < end) vr::event("end_after_last_measurement");
    const double tol = n < 15 ? 1e-8 : 1e-6;
    vr::check_lazy(vr::close(got.deltaTij(), total, 1e-9), "integrate-duration", [&] { return vr::cat(d, ": ", got.deltaTij(), " vs ", total); });
    vr::check_lazy(vr::mat_close(got.deltaPij(), want.deltaPij(), tol) && vr::mat_close(got.deltaVij(), want.deltaVij(), tol) &&
                           vr::mat_close(got.deltaRij().matrix(), want.deltaRij().matrix(), tol),
            "integrate-motion", [&] { return vr::cat(d, ": dp ", got.deltaPij().transpose(), " vs ", want.deltaPij().transpose(), " dv ", got.deltaVij().transpose(), " vs ", want.deltaVij().transpose()); });
    vr::check_lazy(vr::mat_close(got.preintMeasCov(), want.preintMeasCov(), tol), "integrate-covariance", [&] { return d; });
    vr::observe_state("segments", segments);
    vr::nontrivial(vr::hash_mix(start, end));
    vr::sample(d);
    // no interval: nothing happens, whatever the buffer holds
    const double before = got.deltaTij();
    std::deque<eigen_ros::Imu> few(buf.begin(), buf.begin() + r.integer(0, 1));
    vr::expect_no_throw([&] { serpent::integrate_imu(got, r.chance(0.5) ? few : buf, T(start), T(start)); }, "integrate-empty-interval", d);
    vr::check(got.deltaTij() == before, "integrate-empty-interval-changed", d);
    // refusals
    vr::expect_throw([&] { serpent::integrate_imu(got, few, T(start), T(end)); }, "integrate-too-few", d);
    if (st[0] > 5) vr::expect_throw([&] { serpent::integrate_imu(got, buf, T(st[0] - 1 - r.next() % 5), T(end)); }, "integrate-gap-at-start", d);
    vr::event("refusals");
    // splitting the interval at a measurement gives the same result as one call
    if (!later.empty() && later[0] < end) {
        gtsam::PreintegratedCombinedMeasurements two(p, bias), one(p, bias);
        const ns_t mid = later[r.integer(0, later.size() - 1)];
        if (mid < end) {
            vr::expect_no_throw([&] {
                serpent::integrate_imu(two, buf, T(start), T(mid));
                serpent::integrate_imu(two, buf, T(mid), T(end));
                serpent::integrate_imu(one, buf, T(start), T(end)); }, end_on_stamp ? "integrate-end-on-stamp" : "integrate-split-throws", d);
            vr::check(vr::mat_close(two.deltaPij(), one.deltaPij(), 1e-8) && vr::close(two.deltaTij(), one.deltaTij(), 1e-9), "integrate-split", d);
            vr::event("split_intervals");
        }
    }
}

static void buffer(Rng& r) {
    std::deque<eigen_ros::Imu> buf;
    std::vector<ns_t> st;
    ns_t t = 1000000000ull + r.next() % 1000000000ull;
    const int n = r.chance(0.05) ? r.integer(12, 400) : r.integer(0, 12);
    for (int i = 0; i < n; ++i) {
        st.push_back(t);
        buf.push_back(imu(r, t));
        t += r.chance(0.2) ? 0 : 1 + r.next() % 5000000;
    }
    const std::deque<eigen_ros::Imu> all = buf;
    ns_t cut = n && r.chance(0.5) ? st[r.integer(0, n - 1)] + (r.chance(0.3) ? 1 : 0) : 999000000ull + r.next() % 1060000000ull;
    serpent::delete_old_measurements(T(cut), buf);
    std::size_t k = 0;
    while (k < st.size() && st[k] < cut) ++k;
    bool ok = buf.size() == all.size() - k;
    for (std::size_t i = 0; ok && i < buf.size(); ++i) ok = buf[i] == all[i + k] && buf[i].timestamp == all[i + k].timestamp;
    vr::check(ok, "delete-old", vr::cat("cut ", cut, " kept ", buf.size(), " of ", all.size(), " expected to drop ", k));
    vr::event("buffers_pruned");
    vr::event("measurements_dropped", k);
    if (n) vr::nontrivial(vr::hash_mix(cut, st[0]));
    // message arrays
    std::vector<sensor_msgs::Imu> msgs;
    serpent::to_ros(msgs, all);
    std::deque<eigen_ros::Imu> back;
    serpent::from_ros(msgs, back);
    ok = msgs.size() == all.size() && back.size() == all.size();
    for (std::size_t i = 0; ok && i < back.size(); ++i) {
        ok = msgs[i].header.stamp == all[i].timestamp && msgs[i].header.frame_id == all[i].frame && msgs[i].angular_velocity.x == all[i].angular_velocity[0] &&
             msgs[i].angular_velocity.y == all[i].angular_velocity[1] && msgs[i].angular_velocity.z == all[i].angular_velocity[2] &&
             msgs[i].linear_acceleration.x == all[i].linear_acceleration[0] && msgs[i].linear_acceleration.y == all[i].linear_acceleration[1] &&
             msgs[i].linear_acceleration.z == all[i].linear_acceleration[2] && back[i].timestamp == all[i].timestamp && back[i].frame == all[i].frame &&
             back[i].angular_velocity == all[i].angular_velocity && back[i].linear_acceleration == all[i].linear_acceleration &&
             back[i].orientation_covariance == all[i].orientation_covariance && back[i].angular_velocity_covariance == all[i].angular_velocity_covariance &&
             back[i].linear_acceleration_covariance == all[i].linear_acceleration_covariance && back[i].orientation.coeffs() == all[i].orientation.coeffs();
    }
    vr::check(ok, "imu-array-round-trip", vr::cat(all.size(), " measurements"));
    // biases and poses
    const gtsam::imuBias::ConstantBias b(vec(r, 1), vec(r, 1));
    serpent::ImuBiases bm;
    serpent::to_ros(bm, b, T(cut), "body");
    vr::check(bm.header.stamp == T(cut) && bm.header.frame_id == "body" && bm.accelerometer_bias.x == b.accelerometer()[0] && bm.accelerometer_bias.y == b.accelerometer()[1] &&
                      bm.accelerometer_bias.z == b.accelerometer()[2] && bm.gyroscope_bias.x == b.gyroscope()[0] && bm.gyroscope_bias.y == b.gyroscope()[1] && bm.gyroscope_bias.z == b.gyroscope()[2],
            "bias-to-message");
    gtsam::imuBias::ConstantBias b2;
    serpent::from_ros(bm, b2);
    vr::check(b2.accelerometer() == b.accelerometer() && b2.gyroscope() == b.gyroscope(), "bias-round-trip");
    const Eigen::Quaterniond q = quat(r);
    const gtsam::Pose3 p(gtsam::Rot3(q), vec(r, 10));
    geometry_msgs::Pose pm;
    serpent::to_ros(pm, p);
    const Eigen::Quaterniond qm(pm.orientation.w, pm.orientation.x, pm.orientation.y, pm.orientation.z);
    vr::check(vr::mat_close(qm.toRotationMatrix(), q.toRotationMatrix(), 1e-9) && pm.position.x == p.x() && pm.position.y == p.y() && pm.position.z == p.z(), "pose-to-message");
    gtsam::Pose3 p2;
    serpent::from_ros(pm, p2);
    vr::check(vr::mat_close(p2.matrix(), p.matrix(), 1e-9), "pose-round-trip");
    vr::event("messages_converted", 2 + all.size());
}

static void interp(Rng& r) {
    const ns_t t1 = (r.chance(0.5) ? 1600000000000000000ull : 1000000ull) + r.next() % 5000000000ull;
    const ns_t dt = r.chance(0.1) ? 1 + r.next() % 3 : 1 + r.next() % 2000000000ull;
    const ns_t t2 = t1 + dt;
    ns_t t = t1 + r.next() % (dt + 1);
    if (r.chance(0.1)) t = t1;
    if (r.chance(0.1)) t = t2;
    const double f = static_cast<double>(static_cast<long double>(t - t1) / static_cast<long double>(dt));
    const std::string d = vr::cat("t1 ", t1, " t2 ", t2, " t ", t);
    // scalar
    const double a = r.magnitude(-3, 5), b = r.chance(0.3) ? a : r.magnitude(-3, 5);
    const double v = serpent::interpolate(a, b, T(t1), T(t2), T(t));
    vr::check_lazy(vr::close(v, a + f * (b - a), 1e-9 * (1 + std::abs(a) + std::abs(b)) / (1 + std::max(std::abs(a), std::abs(b)))), "scalar", [&] { return vr::cat(d, " ", a, "..", b, " -> ", v); });
    if (t == t1) vr::check(vr::close(v, a, 1e-12), "scalar-first-end", d);
    if (t == t2) vr::check(vr::close(v, b, 1e-12), "scalar-second-end", d);
    const float vf = serpent::interpolate(static_cast<float>(a), static_cast<float>(b), T(t1), T(t2), T(t));
    vr::check(std::abs(vf - (a + f * (b - a))) <= 1e-6 * (std::abs(a) + std::abs(b)), "scalar-float", d);
    vr::expect_throw([&] { serpent::interpolate(a, b, T(t1), T(t2), T(t1 - 1)); }, "scalar-before", d);
    vr::expect_throw([&] { serpent::interpolate(a, b, T(t1), T(t2), T(t2 + 1)); }, "scalar-after", d);
    vr::expect_throw([&] { serpent::interpolate(a, b, T(t2), T(t1), T(t)); }, "scalar-reversed", d);
    vr::expect_throw([&] { serpent::interpolate(a, b, T(t1), T(t1), T(t1)); }, "scalar-degenerate", d);
    // pressure
    sensor_msgs::FluidPressure p1, p2;
    p1.header.stamp = T(t1); p2.header.stamp = T(t2);
    p1.header.frame_id = "baro_a"; p2.header.frame_id = "baro_b";
    p1.fluid_pressure = 90000 + 20000 * r.unit(); p2.fluid_pressure = 90000 + 20000 * r.unit();
    p1.variance = 10 * r.unit(); p2.variance = 10 * r.unit();
    const sensor_msgs::FluidPressure p = serpent::interpolate_pressure(p1, p2, T(t));
    vr::check(p.header.stamp == T(t), "pressure-stamp", d);
    vr::check(p.header.frame_id == "baro_a", "pressure-frame", d);
    vr::check(vr::close(p.fluid_pressure, p1.fluid_pressure + f * (p2.fluid_pressure - p1.fluid_pressure), 1e-9), "pressure-value", d);
    vr::check(vr::close(p.variance, p1.variance + f * (p2.variance - p1.variance), 1e-9), "pressure-variance", d);
    vr::expect_throw([&] { serpent::interpolate_pressure(p1, p2, T(t2 + 1 + r.next() % 1000)); }, "pressure-after", d);
    vr::expect_throw([&] { serpent::interpolate_pressure(p1, p2, T(t1 - 1)); }, "pressure-before", d);
    // imu
    eigen_ros::Imu i1 = imu(r, t1), i2 = imu(r, t2);
    i1.frame = "f1"; i2.frame = "f2";
    const int unknown = r.integer(0, 5);
    if (unknown == 0 || unknown == 2) i1.orientation = Eigen::Quaterniond(0, 0, 0, 0);
    if (unknown == 1 || unknown == 2) i2.orientation = Eigen::Quaterniond(0, 0, 0, 0);
    const eigen_ros::Imu i = eigen_ros::interpolate(i1, i2, T(t));
    vr::check(i.timestamp == T(t), "imu-stamp", d);
    vr::check(vr::mat_close(i.angular_velocity, i1.angular_velocity + f * (i2.angular_velocity - i1.angular_velocity), 1e-9), "imu-angular-velocity", d);
    vr::check(vr::mat_close(i.linear_acceleration, i1.linear_acceleration + f * (i2.linear_acceleration - i1.linear_acceleration), 1e-9), "imu-acceleration", d);
    if (unknown <= 2) {
        vr::check(i.orientation.coeffs() == Eigen::Vector4d::Zero(), "imu-unknown-orientation", d);
        vr::event("unknown_orientations");
    } else {
        const Eigen::Matrix3d R1 = i1.orientation.toRotationMatrix(), R2 = i2.orientation.toRotationMatrix();
        const Eigen::AngleAxisd rel(Eigen::Matrix3d(R1.transpose() * R2));
        if (rel.angle() < 3.1) {
            const Eigen::Matrix3d want = R1 * ref::exp_so3(rel.axis() * rel.angle() * f);
            vr::check(vr::mat_close(i.orientation.normalized().toRotationMatrix(), want, 1e-8), "imu-orientation", d);
            vr::event("orientations_interpolated");
        }
    }
    if (std::abs(f - 0.5) > 1e-9) {
        const eigen_ros::Imu& nearer = f < 0.5 ? i1 : i2;
        vr::check(i.frame == nearer.frame && i.orientation_covariance == nearer.orientation_covariance && i.angular_velocity_covariance == nearer.angular_velocity_covariance &&
                          i.linear_acceleration_covariance == nearer.linear_acceleration_covariance, "imu-covariances", d);
    }
    vr::expect_throw([&] { eigen_ros::interpolate(i1, i2, T(t1 - 1)); }, "imu-before", d);
    vr::expect_throw([&] { eigen_ros::interpolate(i1, i2, T(t2 + 1)); }, "imu-after", d);
    eigen_ros::Imu same = i2;
    same.timestamp = T(t1);
    vr::check(eigen_ros::interpolate(i1, same, T(t1)).angular_velocity == i1.angular_velocity, "imu-equal-stamps", d);
    vr::event("interpolations", 3);
    vr::nontrivial(vr::hash_mix(t1, t));
}

static void parameters(Rng& r) {
    auto p = params(r);
    vr::check(serpent::check_valid(*p), "valid-parameters-refused");
    const int bad = r.integer(0, 5);
    Eigen::Matrix3d a = spd(r), g = spd(r);
    const int k = r.integer(0, 2), l = (k + 1) % 3;
    bool valid = true;
    auto spoil = [&](Eigen::Matrix3d& m) {
        switch (r.integer(0, 3)) {
            case 0: m(k, k) = 0; m.row(k).setZero(); m.col(k).setZero(); break;
            case 1: m(k, k) = -m(k, k); break;
            case 2: m(k, l) += 0.5; break;
            default: m(k, l) = m(l, k) = 3 * std::sqrt(m(k, k) * m(l, l)); break;
        }
        valid = false;
    };
    if (bad == 1) spoil(a);
    if (bad == 2) spoil(g);
    if (bad == 3) { spoil(a); spoil(g); }
    if (bad == 4) { Eigen::Matrix3d m = spd(r); spoil(m); p->setIntegrationCovariance(m); }
    if (bad == 5) { p->n_gravity.setZero(); valid = false; }
    if (valid) {
        vr::expect_no_throw([&] { serpent::update_preintegration_params(*p, a, g); }, "parameters-refused");
        vr::check(p->getAccelerometerCovariance() == a && p->getGyroscopeCovariance() == g, "parameters-not-set");
        vr::event("parameters_accepted");
    } else {
        vr::expect_throw([&] { serpent::update_preintegration_params(*p, a, g); }, "bad-parameters-accepted", vr::cat("kind ", bad));
        vr::event("parameters_refused");
    }
    vr::nontrivial(vr::hash_bytes(a.data(), sizeof(double) * 9));
}

static void sleeping(Rng& r) {
    vros::reset();
    std::mutex m;
    const bool already = r.chance(0.5), leave = r.chance(0.5);
    const int polls = r.integer(0, 5), stop_at = r.chance(0.3) ? static_cast<int>(r.integer(0, 4)) : -1;
    int evaluated = 0, slept = 0;
    // whether another thread can take the mutex now
    auto is_free = [&] {
        bool f = false;
        std::thread([&] { f = m.try_lock(); if (f) m.unlock(); }).join();
        return f;
    };
    const std::string d = vr::cat("already ", already, " leave ", leave, " polls ", polls, " stop ", stop_at);
    ros::vr_sleep_hook() = [&](std::int64_t) {
        vr::check(is_free(), "sleep-holding-lock", d);
        if (slept == stop_at) ros::shutdown();
        ++slept;
        if (slept > 100) throw std::runtime_error("sleeps for ever");
    };
    if (already) m.lock();
    bool ok = false;
    vr::expect_no_throw([&] {
        ok = serpent::protected_sleep(m, 0.01, already, leave, [&] {
            vr::check(!is_free(), "condition-without-lock", d);
            return evaluated++ < polls;
        });
    }, "sleep-throws", d);
    ros::vr_sleep_hook() = nullptr;
    const bool stopped = stop_at >= 0 && stop_at < polls;
    vr::check(ok == !stopped, "sleep-result", d);
    vr::check(slept == (stopped ? stop_at + 1 : polls), "sleep-count", vr::cat(d, ": slept ", slept));
    vr::check(is_free() == !leave, leave ? "lock-not-left" : "lock-not-released", d);
    if (leave && !is_free()) m.unlock();
    vr::event("waits");
    vr::event("sleeps", slept);
    if (stopped) vr::event("shutdown_while_waiting");
    vr::nontrivial(vr::hash_mix(already * 2 + leave, polls * 10 + stop_at));
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {{"integrate", integrate}, {"buffer", buffer}, {"interpolate", interp}, {"parameters", parameters}, {"sleep", sleeping}});
}
