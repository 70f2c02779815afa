// C05: rigid transforms of typed clouds (pointcloud_tools and serpent's dispatch).
#include "clouds.hpp"
#include "pointcloud_tools/pclpointcloud_transform.hpp"
#include "serpent/front_end/lidar/transform_pointcloud.hpp"
using namespace ref;
using vr::check;
using vr::cat;

static bool near3(const float* got, const V3& want, double tol) {
    for (int i = 0; i < 3; ++i) if (!(std::abs(got[i] - want(i)) <= tol)) return false;
    return true;
}
static bool same(float a, float b) { return a == b || (std::isnan(a) && std::isnan(b)); }

static void extra(const PointNormalUnit& in, const PointNormalUnit& out, const M3& R, const std::string& k) {
    const V3 u(in.ux, in.uy, in.uz);
    if (!u.allFinite()) return;
    check(near3(out.data_u, R * u, 2e-6), k + "-unit-vector", cat("in ", u.transpose(), " out ", out.ux, " ", out.uy, " ", out.uz, " want ", (R * u).transpose()));
}
static void extra_same(const PointNormalUnit& in, const PointNormalUnit& out, const std::string& k) {
    check(same(in.ux, out.ux) && same(in.uy, out.uy) && same(in.uz, out.uz), k + "-nonfinite-unit");
}
static void extra(const PointNormalCovariance& in, const PointNormalCovariance& out, const M3& R, const std::string& k) {
    M3 C;
    C << in.covariance_xx, in.covariance_xy, in.covariance_xz, in.covariance_xy, in.covariance_yy, in.covariance_yz, in.covariance_xz, in.covariance_yz, in.covariance_zz;
    const M3 W = R * C * R.transpose();
    M3 G;
    G << out.covariance_xx, out.covariance_xy, out.covariance_xz, out.covariance_xy, out.covariance_yy, out.covariance_yz, out.covariance_xz, out.covariance_yz, out.covariance_zz;
    check(vr::mat_close(G, W, 1e-5), k + "-covariance", cat("got\n", G, "\nwant\n", W));
}
static void extra_same(const PointNormalCovariance& in, const PointNormalCovariance& out, const std::string& k) {
    bool ok = true;
    for (int i = 0; i < 6; ++i) ok = ok && same(in.covariance[i], out.covariance[i]);
    check(ok, k + "-nonfinite-covariance");
}
static void extra(const pcl::PointNormal&, const pcl::PointNormal&, const M3&, const std::string&) {}
static void extra_same(const pcl::PointNormal&, const pcl::PointNormal&, const std::string&) {}

template<typename P>
void verify(const pcl::PointCloud<P>& in, const pcl::PointCloud<P>& out, const M4& T, bool all_fields, const std::string& k, const pcl::PointCloud<P>& before) {
    const M3 R = T.block<3, 3>(0, 0);
    const V3 t = T.block<3, 1>(0, 3);
    check(out.width == in.width && out.height == in.height && out.points.size() == in.points.size(), k + "-shape",
            cat("in ", in.width, "x", in.height, "=", in.points.size(), " out ", out.width, "x", out.height, "=", out.points.size()));
    check(out.is_dense == in.is_dense, k + "-dense");
    check(out.header.frame_id == in.header.frame_id && out.header.stamp == in.header.stamp && out.header.seq == in.header.seq, k + "-header");
    check((out.sensor_origin_ - in.sensor_origin_).norm() == 0 && out.sensor_orientation_.coeffs() == in.sensor_orientation_.coeffs(), k + "-sensor-pose");
    if (out.points.size() != in.points.size()) return;
    for (std::size_t i = 0; i < in.points.size(); ++i) {
        const P& a = in.points[i];
        const P& b = out.points[i];
        const V3 p(a.x, a.y, a.z);
        if (p.allFinite()) {
            const V3 w = R * p + t;
            check(near3(b.data, w, 4e-6 * (1 + p.norm() + t.norm())), k + "-position", cat("i=", i, " p=", p.transpose(), " got ", b.x, " ", b.y, " ", b.z, " want ", w.transpose()));
            check(b.data[3] == 1.f, k + "-homogeneous");
            const V3 n(a.normal_x, a.normal_y, a.normal_z);
            if (!n.allFinite()) vr::event("finite_points_without_normal");
            else check(near3(b.data_n, R * n, 2e-6), k + "-normal", cat("i=", i));
            extra(a, b, R, k);
            if (all_fields) check(same(a.curvature, b.curvature), k + "-curvature");
            else if (i < before.points.size()) check(same(before.points[i].curvature, b.curvature), k + "-curvature-not-asked", cat("i=", i, " destination had ", before.points[i].curvature, " now ", b.curvature));
            vr::event("points_transformed");
        } else if (all_fields) {
            check(same(a.x, b.x) && same(a.y, b.y) && same(a.z, b.z), k + "-nonfinite-position", cat("i=", i, " in ", p.transpose(), " out ", b.x, " ", b.y, " ", b.z));
            check(same(a.normal_x, b.normal_x) && same(a.normal_y, b.normal_y) && same(a.normal_z, b.normal_z), k + "-nonfinite-normal");
            extra_same(a, b, k);
            vr::event("nonfinite_points_kept");
        }
    }
}

template<typename P>
std::uint64_t chash(const pcl::PointCloud<P>& c, const M4& T) {
    std::uint64_t h = hash(T);
    for (auto& p : c.points) h = vr::hash_bytes(p.data, 12, h);
    return h;
}

// Calls f(in, out, transform, copy) with each transform representation.
template<typename P, typename F>
void all_forms(vr::Rng& g, const std::string& k, F f, bool pass_copy) {
    auto in = gen::cloud<P>(g, true, 0.0008);
    if (in.size() > 65536) vr::event("clouds_beyond_65536_points");
    if (!in.is_dense)  // points whose normal could not be estimated still have a position
        for (auto& p : in.points)
            if (g.chance(0.1)) p.normal_x = p.normal_y = p.normal_z = std::numeric_limits<float>::quiet_NaN();
    const M4 T = hom(exp_so3(random_rotation_vector(g)), random_translation(g, -2, 1.5));
    vr::nontrivial(chash(in, T));
    vr::observe_state("cloud_shapes", vr::hash_mix(in.width, in.height * 2 + in.is_dense));
    vr::sample(cat(k, ": ", in.width, "x", in.height, " dense=", in.is_dense, " T=\n", T));
    const int form = g.integer(0, 4);
    const bool copy = pass_copy ? g.chance(0.7) : true;
    const bool inplace = g.chance(0.25);
    pcl::PointCloud<P> out;
    if (g.chance(0.5)) out = gen::cloud<P>(g);  // stale destination
    const pcl::PointCloud<P> before = out;
    pcl::PointCloud<P> work = in;
    const pcl::PointCloud<P>& src = inplace ? work : in;
    pcl::PointCloud<P>& dst = inplace ? work : out;
    switch (form) {
        case 0: { const Eigen::Matrix4f m = T.cast<float>(); f(src, dst, m, copy); break; }
        case 1: { const Eigen::Matrix4d m = T; f(src, dst, m, copy); break; }
        case 2: { const auto m = iso<float>(T); f(src, dst, m, copy); break; }
        case 3: { const auto m = iso<double>(T); f(src, dst, m, copy); break; }
        default: { Eigen::Affine3f m; m.matrix() = T.cast<float>(); f(src, dst, m, copy); break; }
    }
    verify(in, dst, T, copy || inplace, k + (inplace ? "-inplace" : ""), before);
    vr::event(inplace ? "in_place_transforms" : "copying_transforms");
    vr::observe_state("transform_forms", form * 4 + copy * 2 + inplace);
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {
        {"unit", [](vr::Rng& g) { all_forms<PointNormalUnit>(g, "unit", [](const auto& a, auto& b, const auto& t, bool c) { pct::transform_pointcloud_with_normals_and_unit_vectors(a, b, t, c); }, true); }},
        {"covariance", [](vr::Rng& g) { all_forms<PointNormalCovariance>(g, "covariance", [](const auto& a, auto& b, const auto& t, bool c) { pct::transform_pointcloud_with_normals_and_covariances(a, b, t, c); }, true); }},
        {"dispatch", [](vr::Rng& g) {
            auto f = [](const auto& a, auto& b, const auto& t, bool) { serpent::transform_pointcloud(a, b, t); };
            switch (g.integer(0, 2)) {
                case 0: all_forms<PointNormalUnit>(g, "dispatch-unit", f, false); break;
                case 1: all_forms<PointNormalCovariance>(g, "dispatch-covariance", f, false); break;
                default: all_forms<pcl::PointNormal>(g, "dispatch-normal", f, false);
            }
        }},
    });
}
