// Shared pieces of the node harnesses: parameters, conversions written independently of eigen_ros, polling.
#pragma once
#include <ros/ros.h>

#include <Eigen/Geometry>
#include <chrono>
#include <thread>

#include <geometry_msgs/Pose.h>
#include <geometry_msgs/Transform.h>
#include "vr.hpp"

namespace nc {
using vr::Rng;
typedef Eigen::Isometry3d Iso;

// Evidence of concurrency: which callbacks were seen running at the same time.
inline const bool overlaps_reported = [] {
    vr::at_end().push_back([] {
        std::lock_guard<std::mutex> l(vros::Bus::get().m);
        for (auto h : vros::Bus::get().overlaps) vr::observe_state("pairs_of_callbacks_overlapping", h);
    });
    return true;
}();

inline Eigen::Vector3d vec(Rng& r, double s) { return Eigen::Vector3d(s * r.gauss(), s * r.gauss(), s * r.gauss()); }
inline Eigen::Quaterniond rot(const Eigen::Vector3d& w) {
    const double a = w.norm();
    return a < 1e-12 ? Eigen::Quaterniond::Identity() : Eigen::Quaterniond(Eigen::AngleAxisd(a, Eigen::Vector3d(w / a)));
}
inline Iso iso(const Eigen::Quaterniond& q, const Eigen::Vector3d& t) {
    Iso m = Iso::Identity();
    m.linear() = q.normalized().toRotationMatrix();
    m.translation() = t;
    return m;
}
inline Iso random_iso(Rng& r, double rs, double ts) { return iso(rot(vec(r, rs)), vec(r, ts)); }
// Everything a node publishes as a rotation is one.
inline void unit_quaternion(double w, double x, double y, double z) {
    const double n = std::sqrt(w * w + x * x + y * y + z * z);
    vr::check(std::abs(n - 1) < 1e-5, "quaternion-not-unit", "norm " + std::to_string(n));
}
inline Iso from(const geometry_msgs::Pose& p) {
    unit_quaternion(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z);
    return iso(Eigen::Quaterniond(p.orientation.w, p.orientation.x, p.orientation.y, p.orientation.z), Eigen::Vector3d(p.position.x, p.position.y, p.position.z));
}
inline Iso from(const geometry_msgs::Transform& p) {
    unit_quaternion(p.rotation.w, p.rotation.x, p.rotation.y, p.rotation.z);
    return iso(Eigen::Quaterniond(p.rotation.w, p.rotation.x, p.rotation.y, p.rotation.z), Eigen::Vector3d(p.translation.x, p.translation.y, p.translation.z));
}
inline geometry_msgs::Pose to_pose(const Iso& m) {
    geometry_msgs::Pose p;
    const Eigen::Quaterniond q(m.linear());
    p.orientation.w = q.w(); p.orientation.x = q.x(); p.orientation.y = q.y(); p.orientation.z = q.z();
    p.position.x = m.translation().x(); p.position.y = m.translation().y(); p.position.z = m.translation().z();
    return p;
}
inline geometry_msgs::Transform to_transform(const Iso& m) {
    geometry_msgs::Transform p;
    const Eigen::Quaterniond q(m.linear());
    p.rotation.w = q.w(); p.rotation.x = q.x(); p.rotation.y = q.y(); p.rotation.z = q.z();
    p.translation.x = m.translation().x(); p.translation.y = m.translation().y(); p.translation.z = m.translation().z();
    return p;
}
// rotation angle + translation distance between two rigid motions
inline double apart(const Iso& a, const Iso& b) {
    if (!a.matrix().allFinite() || !b.matrix().allFinite()) return std::numeric_limits<double>::infinity();
    return (a.matrix() - b.matrix()).norm();
}
inline ros::Time T(std::uint64_t ns) { ros::Time t; return t.fromNSec(ns); }

inline XmlRpc::XmlRpcValue frame_param(const Iso& m, const std::string& id) {
    XmlRpc::XmlRpcValue f, t, q;
    const Eigen::Quaterniond o(m.linear());
    t["x"] = m.translation().x(); t["y"] = m.translation().y(); t["z"] = m.translation().z();
    q["w"] = o.w(); q["x"] = o.x(); q["y"] = o.y(); q["z"] = o.z();
    f["translation"] = t;
    f["rotation"] = q;
    if (!id.empty()) f["frame_id"] = id;
    return f;
}
// body "base_link" with the given frames (poses in the body frame)
inline void body_frames(const std::string& ns, const std::map<std::string, Iso>& frames) {
    XmlRpc::XmlRpcValue all, body, fs;
    for (const auto& f : frames) fs[f.first] = frame_param(f.second, "");
    body["frames"] = fs;
    all["base_link"] = body;
    vros::set_param(ns + "/body_frames", all);
}
// Polls until the condition holds; false after the timeout.
template<typename F>
bool poll(F&& f, int ms = 30000) {
    const auto end = std::chrono::steady_clock::now() + std::chrono::milliseconds(ms);
    while (!f()) {
        if (std::chrono::steady_clock::now() > end) return false;
        std::this_thread::sleep_for(std::chrono::microseconds(100));
    }
    return true;
}
template<typename M>
std::size_t count(const std::string& topic) { return vros::received<M>(topic).size(); }
}
