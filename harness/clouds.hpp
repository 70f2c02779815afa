// Random typed point clouds.
#pragma once
#include <pcl/point_cloud.h>
#include <pcl/point_types.h>
#include "pointcloud_tools/point_types.hpp"
#include "ref.hpp"

namespace gen {

inline ref::V3 position(vr::Rng& g) {
    ref::V3 p;
    const double s = g.chance(0.2) ? 100 : 10;
    for (int i = 0; i < 3; ++i) p(i) = g.chance(0.05) ? 0 : g.uniform(-s, s);
    return p;
}
template<typename P>
void set_xyz(P& p, const ref::V3& v) { p.x = v(0); p.y = v(1); p.z = v(2); p.data[3] = 1.f; }
template<typename P>
void set_normal(P& p, const ref::V3& v) { p.normal_x = v(0); p.normal_y = v(1); p.normal_z = v(2); p.data_n[3] = 0.f; }

inline void fill(vr::Rng& g, PointUnit& p) {
    set_xyz(p, position(g));
    const ref::V3 u = ref::random_unit(g);
    p.ux = u(0); p.uy = u(1); p.uz = u(2);
}
inline void fill(vr::Rng& g, PointNormalUnit& p) {
    set_xyz(p, position(g));
    set_normal(p, ref::random_unit(g));
    p.curvature = g.uniform(0, 1);
    const ref::V3 u = ref::random_unit(g);
    p.ux = u(0); p.uy = u(1); p.uz = u(2);
}
inline void random_cov(vr::Rng& g, float& xx, float& xy, float& xz, float& yy, float& yz, float& zz) {
    ref::M3 A;
    for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) A(r, c) = g.gauss();
    ref::M3 C = A * A.transpose();
    switch (g.integer(0, 7)) {
        case 0: {  // equal variances, correlated
            const ref::V3 d = C.diagonal().cwiseSqrt().cwiseInverse();
            C = d.asDiagonal() * C * d.asDiagonal();
            break;
        }
        case 1: C = A.col(0) * A.col(0).transpose(); break;  // a line
        case 2: C = ref::M3(C.diagonal().asDiagonal()); break;
        default: break;
    }
    if (g.chance(0.3)) C *= std::abs(g.magnitude(-6, 3));
    xx = C(0, 0); xy = C(0, 1); xz = C(0, 2); yy = C(1, 1); yz = C(1, 2); zz = C(2, 2);
}
inline void fill(vr::Rng& g, PointCovariance& p) {
    set_xyz(p, position(g));
    random_cov(g, p.covariance_xx, p.covariance_xy, p.covariance_xz, p.covariance_yy, p.covariance_yz, p.covariance_zz);
}
inline void fill(vr::Rng& g, PointNormalCovariance& p) {
    set_xyz(p, position(g));
    set_normal(p, ref::random_unit(g));
    p.curvature = g.uniform(0, 1);
    random_cov(g, p.covariance_xx, p.covariance_xy, p.covariance_xz, p.covariance_yy, p.covariance_yz, p.covariance_zz);
}
inline void fill(vr::Rng& g, PointAngleAxis& p) {
    set_xyz(p, position(g));
    const ref::V3 r = ref::random_rotation_vector(g);
    p.rx = r(0); p.ry = r(1); p.rz = r(2);
}
inline void fill(vr::Rng& g, pcl::PointNormal& p) {
    set_xyz(p, position(g));
    set_normal(p, ref::random_unit(g));
    p.curvature = g.uniform(0, 1);
}
template<typename P>
pcl::PointCloud<P> cloud(vr::Rng& g, bool allow_nonfinite = true, double huge = 0.0) {
    pcl::PointCloud<P> c;
    const bool organised = g.chance(0.3);
    if (organised) {
        c.width = g.integer(1, 8);
        c.height = g.integer(2, 6);
    } else {
        c.width = g.chance(0.05) ? 0 : g.chance(0.01) ? g.integer(250, 1500) : g.chance(huge) ? g.integer(65000, 70000) : g.integer(1, 40);
        c.height = 1;
    }
    c.points.resize(c.width * c.height);
    for (auto& p : c.points) fill(g, p);
    c.is_dense = true;
    if (allow_nonfinite && g.chance(0.4) && !c.points.empty()) {
        c.is_dense = false;
        const int n = g.integer(0, 4);
        for (int k = 0; k < n; ++k) {
            auto& p = c.points[g.integer(0, c.points.size() - 1)];
            const float bad = g.chance(0.5) ? std::nanf("") : (g.chance(0.5) ? 1 : -1) * std::numeric_limits<float>::infinity();
            p.data[g.integer(0, 2)] = bad;
        }
    }
    c.header.stamp = g.next() >> 20;
    c.header.seq = g.integer(0, 100000);
    c.header.frame_id = "frame" + std::to_string(g.integer(0, 99));
    c.sensor_origin_ = Eigen::Vector4f(g.uniform(-1, 1), g.uniform(-1, 1), g.uniform(-1, 1), 0);
    c.sensor_orientation_ = Eigen::Quaternionf(g.uniform(0.1, 1), g.uniform(-1, 1), g.uniform(-1, 1), g.uniform(-1, 1)).normalized();
    return c;
}

}
