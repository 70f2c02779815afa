// C08: closed-form ICP derivatives equal the true derivatives of the objective.
#include "icp_ref.hpp"
#include "clouds.hpp"
#include "serpent/front_end/lidar/registration_covariance.hpp"
using namespace ref;
using icp_ref::Model;
using vr::check;
using vr::cat;
using PN = pcl::PointNormal;

static double err(const M6& got, const M6& want) {
    double s = 1e-3;
    for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) s = std::max(s, std::abs(want(r, c)));
    double m = 0;
    for (int r = 0; r < 6; ++r) for (int c = 0; c < 6; ++c) {
        const double d = std::abs(got(r, c) - want(r, c)) / s;
        if (!(d <= 1e300)) return 1e300;
        m = std::max(m, d);
    }
    return m;
}

template<typename M, bool Plane>
void one(Model m, const std::string& name, vr::Rng& g, const V3& r, const V3& t, const V3& p, const V3& q, const V3& n, double tol, const std::string& regime) {
    // The components come from a rotation vector or, as registration delivers them, from a matrix.
    const bool from_matrix = g.chance(0.5);
    const M4 T = hom(exp_so3(r), t);
    const eigen_ext::PrecomputedTransformComponents<double> tf = from_matrix ? eigen_ext::PrecomputedTransformComponents<double>{T} : eigen_ext::PrecomputedTransformComponents<double>{r, t};
    {
        const double a = r.norm();
        const auto where = [&] { return cat("r=", r.transpose(), " t=", t.transpose(), " from matrix ", from_matrix, " got r=", tf.r().transpose(), " t=", tf.t().transpose(), " a=", tf.a()); };
        vr::check_lazy((tf.T() - T).cwiseAbs().maxCoeff() <= 1e-12 * (1 + t.norm()) && (tf.R() - exp_so3(r)).cwiseAbs().maxCoeff() <= 1e-12 && (tf.t() - t).cwiseAbs().maxCoeff() <= 1e-12 * (1 + t.norm()), "components-transform", where);
        vr::check_lazy(std::abs(tf.a() - tf.r().norm()) <= 1e-9 && std::abs(tf.sina() - std::sin(tf.a())) <= 1e-9 && std::abs(tf.cosa() - std::cos(tf.a())) <= 1e-9, "components-angle", where);
        // At a half turn both axis directions describe the same rotation; everywhere below it the vector is unique.
        if (a < 3.1415 || !from_matrix) vr::check_lazy((tf.r() - r).cwiseAbs().maxCoeff() <= 1e-9, "components-rotation-vector", where);
        else vr::check_lazy((exp_so3(tf.r()) - exp_so3(r)).cwiseAbs().maxCoeff() <= 1e-9, "components-rotation-vector", where);
        vr::event(from_matrix ? "components_from_matrix" : "components_from_vector");
    }
    M6 wx, wz;
    icp_ref::derivatives(m, r, t, p, q, n, wx, wz);
    M6 gx, gz;
    if constexpr (Plane) {
        gx = M::compute_half_d2F_dx2(tf, p, q, n);
        gz = M::compute_half_d2F_dzdx(tf, p, q, n);
    } else {
        gx = M::compute_half_d2F_dx2(tf, p, q);
        gz = M::compute_half_d2F_dzdx(tf, p, q);
    }
    const double ex = err(gx, wx), ez = err(gz, wz);
    vr::maximum(name + "-" + regime + "-dx2-relative-error", ex);
    vr::maximum(name + "-" + regime + "-dzdx-relative-error", ez);
    const auto in = [&] { return cat("r=", r.transpose(), " t=", t.transpose(), " p=", p.transpose(), " q=", q.transpose(), " n=", n.transpose()); };
    vr::check_lazy(ex <= tol, name + "-" + regime + "-dx2", [&] { return cat(in(), " rel err ", ex, "\ngot\n", gx, "\nwant\n", wx); });
    vr::check_lazy(ez <= tol, name + "-" + regime + "-dzdx", [&] { return cat(in(), " rel err ", ez, "\ngot\n", gz, "\nwant\n", wz); });
    vr::check_lazy((gx - gx.transpose()).cwiseAbs().maxCoeff() <= tol * (1 + wx.cwiseAbs().maxCoeff()), name + "-" + regime + "-symmetric", in);
    vr::event("correspondences_differentiated");
    // process_correspondence reads the same quantities from typed points (floats)
    PN sp, tp;
    gen::set_xyz(sp, p);
    gen::set_xyz(tp, q);
    gen::set_normal(tp, n);
    gen::set_normal(sp, random_unit(g));  // the source normal must not matter
    const V3 pf(sp.x, sp.y, sp.z), qf(tp.x, tp.y, tp.z), nf(tp.normal_x, tp.normal_y, tp.normal_z);
    icp_ref::derivatives(m, r, t, pf, qf, nf, wx, wz);
    M6 hx, hz, hx1;
    M::process_correspondence(sp, tp, tf, hx, hz);
    M::process_correspondence(sp, tp, tf, hx1);
    vr::check_lazy(err(hx, wx) <= tol && err(hz, wz) <= tol, name + "-" + regime + "-process", in);
    vr::check_lazy(err(hx1, wx) <= tol, name + "-" + regime + "-process-hessian-only", in);
}

static void any(vr::Rng& g, double amin, double amax, double tol, const std::string& regime, bool zero = false) {
    V3 axis = random_unit(g);
    if (g.chance(0.25)) {  // axis-aligned and planar axes: zero components
        axis = V3::Zero();
        axis(g.integer(0, 2)) = g.chance(0.5) ? 1 : -1;
        if (g.chance(0.5)) { axis(g.integer(0, 2)) += 0.5; axis.normalize(); }
    }
    const double a = zero ? 0.0 : amin * std::pow(amax / amin, g.unit());
    const V3 r = axis * a;
    V3 t, p, q;
    // A desk, a room, a valley.
    const double reach = g.chance(0.6) ? 1.0 : std::pow(10.0, g.uniform(-1.5, 1.5));
    for (int i = 0; i < 3; ++i) { t(i) = reach * g.uniform(-3, 3); p(i) = g.chance(0.05) ? 0 : reach * g.uniform(-20, 20); }
    if (g.chance(0.5)) {  // converged registration: small residual
        q = exp_so3(r) * p + t;
        for (int i = 0; i < 3; ++i) q(i) += 0.1 * reach * g.gauss();
    } else {
        for (int i = 0; i < 3; ++i) q(i) = reach * g.uniform(-20, 20);
    }
    V3 n = random_unit(g);
    if (g.chance(0.15)) { n = V3::Zero(); n(g.integer(0, 2)) = 1; }
    vr::nontrivial(hash(r, hash(p, hash(q))));
    vr::sample(cat("r=", r.transpose(), " t=", t.transpose(), " p=", p.transpose(), " q=", q.transpose()));
    vr::observe_state("angle_decile", (std::uint64_t)(a * 10));
    one<serpent::PointToPointIcpNonlinearModel<PN, PN>, false>(Model::PointPointNonlinear, "point-nonlinear", g, r, t, p, q, n, tol, regime);
    one<serpent::PointToPlaneIcpNonlinearModel<PN, PN>, true>(Model::PointPlaneNonlinear, "plane-nonlinear", g, r, t, p, q, n, tol, regime);
    if (regime == "ordinary") {
        one<serpent::PointToPointIcpLinearisedModel<PN, PN>, false>(Model::PointPointLinearised, "point-linearised", g, r, t, p, q, n, 1e-10, regime);
        one<serpent::PointToPlaneIcpLinearisedModel<PN, PN>, true>(Model::PointPlaneLinearised, "plane-linearised", g, r, t, p, q, n, 1e-10, regime);
    }
}
static void linear_only(vr::Rng& g) {
    const V3 r = random_rotation_vector(g);
    V3 t, p, q;
    const double reach = g.chance(0.6) ? 1.0 : std::pow(10.0, g.uniform(-1.5, 1.5));
    for (int i = 0; i < 3; ++i) { t(i) = reach * g.uniform(-3, 3); p(i) = reach * g.uniform(-20, 20); q(i) = reach * g.uniform(-20, 20); }
    const V3 n = random_unit(g);
    vr::nontrivial(hash(r, hash(p, hash(q))));
    one<serpent::PointToPointIcpLinearisedModel<PN, PN>, false>(Model::PointPointLinearised, "point-linearised", g, r, t, p, q, n, 1e-10, "any");
    one<serpent::PointToPlaneIcpLinearisedModel<PN, PN>, true>(Model::PointPlaneLinearised, "plane-linearised", g, r, t, p, q, n, 1e-10, "any");
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {
        {"ordinary", [](vr::Rng& g) { any(g, 0.2, 3.14159, 1e-8, "ordinary"); }},
        {"small", [](vr::Rng& g) { any(g, 0.02, 0.2, 1e-4, "small"); }},
        {"tiny", [](vr::Rng& g) { any(g, 2e-4, 0.02, 1e-4, "tiny"); }},
        {"vanishing", [](vr::Rng& g) { any(g, 1e-12, 2e-4, 5e-3, "vanishing"); }},
        {"zero", [](vr::Rng& g) { any(g, 0, 0, 5e-3, "zero", true); }},
        {"linear", linear_only},
    });
}
