// C01: rigid-transform algebra of eigen_ext.
#include "eigen_ext/geometry.hpp"
#include "eigen_ext/precomputed_transform_components.hpp"
#include "ref.hpp"
using namespace ref;
using vr::check;
using vr::cat;

template<typename S> struct Tol { static constexpr double v = 1e-9; };
template<> struct Tol<float> { static constexpr double v = 3e-4; };

// Compare rotation block absolutely, translation relative to scale.
template<typename T>
bool tf_close(const T& T_got, const M4& want, double tol, double scale) {
    const auto m = T_got.matrix();
    for (int r = 0; r < 4; ++r)
        for (int c = 0; c < 4; ++c) {
            const double g = m(r, c), d = std::abs(g - want(r, c));
            const double lim = (r < 3 && c == 3) ? tol * (1 + scale) : tol;
            if (!(d <= lim)) return false;
        }
    return true;
}

template<typename S>
void algebra(vr::Rng& g) {
    const std::string ty = sizeof(S) == 4 ? "f" : "d";
    const double tol = Tol<S>::v;
    const V3 r1 = random_rotation_vector(g), r2 = random_rotation_vector(g);
    M4 A = hom(exp_so3(r1), random_translation(g)), B = hom(exp_so3(r2), random_translation(g));
    if (g.chance(0.08)) {  // two poses near each other in a frame with a far origin (map grid coordinates)
        const V3 origin{g.magnitude(3.5, 6.7), g.magnitude(3.5, 6.7), g.magnitude(0, 3)};
        A.block<3, 1>(0, 3) += origin;
        B.block<3, 1>(0, 3) += origin;
        vr::event("poses_far_from_the_origin");
    }
    const double scale = A.block<3, 1>(0, 3).norm() + B.block<3, 1>(0, 3).norm();
    const auto a = iso<S>(A), b = iso<S>(B);
    vr::nontrivial(hash(A, hash(B)));
    vr::sample(cat("A rotation vector ", r1.transpose(), " translation ", A.block<3, 1>(0, 3).transpose(), "; B rotation vector ",
            r2.transpose()));
    vr::observe_state("rotation_regime", (r1.norm() == 0) + 2 * (r1.norm() > 0 && r1.norm() < 1e-3) + 4 * (r1.norm() > 3.13) +
            8 * (r2.norm() == 0) + 16 * (r2.norm() > 3.13) + 32 * (A.block<3, 1>(0, 3).norm() == 0));

    // relative_transform
    const auto rel = eigen_ext::relative_transform(a, b);
    check(tf_close(rel, inv(A) * B, tol, 4 * scale), "relative-transform-" + ty, cat("got\n", rel.matrix(), "\nwant\n", inv(A) * B));
    // reconstruct: a * rel == b
    check(tf_close(a * rel, B, tol, 4 * scale), "relative-transform-recompose-" + ty);
    {   // the planar instantiation of the same function
        const double t1 = g.uniform(-7, 7), t2 = g.uniform(-7, 7);
        Eigen::Matrix3d A2 = Eigen::Matrix3d::Identity(), B2 = A2;
        A2 << std::cos(t1), -std::sin(t1), A(0, 3), std::sin(t1), std::cos(t1), A(1, 3), 0, 0, 1;
        B2 << std::cos(t2), -std::sin(t2), B(0, 3), std::sin(t2), std::cos(t2), B(1, 3), 0, 0, 1;
        Eigen::Transform<S, 2, Eigen::Isometry> a2, b2;
        a2.matrix() = A2.cast<S>();
        b2.matrix() = B2.cast<S>();
        Eigen::Matrix3d want2 = Eigen::Matrix3d::Identity();
        want2.block<2, 2>(0, 0) = A2.block<2, 2>(0, 0).transpose() * B2.block<2, 2>(0, 0);
        want2.block<2, 1>(0, 2) = A2.block<2, 2>(0, 0).transpose() * (B2.block<2, 1>(0, 2) - A2.block<2, 1>(0, 2));
        const Eigen::Transform<S, 2, Eigen::Isometry> rel2 = eigen_ext::relative_transform(a2, b2);
        const Eigen::Matrix3d got2 = rel2.matrix().template cast<double>();
        check((got2 - want2).cwiseAbs().maxCoeff() <= tol * (1 + 4 * scale), "relative-transform-planar-" + ty, cat("got\n", got2, "\nwant\n", want2));
        vr::event("planar_relative_transforms");
    }
    const auto rel_back = eigen_ext::relative_transform(b, a);
    check(tf_close(rel * rel_back, M4::Identity(), tol, 8 * scale), "relative-transform-inverse-" + ty);
    // to_transform
    const Eigen::Matrix<S, 3, 3> R = a.linear();
    const Eigen::Matrix<S, 3, 1> t = a.translation();
    const Eigen::Quaternion<S> q{R};
    check(tf_close(eigen_ext::to_transform(t, q), A, tol, scale), "to-transform-vec-quat-" + ty);
    check(tf_close(eigen_ext::to_transform(Eigen::Translation<S, 3>{t}, q), A, tol, scale), "to-transform-trans-quat-" + ty);
    check(tf_close(eigen_ext::to_transform(t, R), A, tol, scale), "to-transform-vec-mat-" + ty);
    // The other cover of the same rotation.
    const Eigen::Quaternion<S> nq{-q.w(), -q.x(), -q.y(), -q.z()};
    check(tf_close(eigen_ext::to_transform(t, nq), A, tol, scale), "to-transform-neg-quat-" + ty);
    // change_relative_transform_frame
    const M4 want_c = B * A * inv(B);
    check(tf_close(eigen_ext::change_relative_transform_frame(a, b), want_c, tol, 8 * scale), "change-relative-frame2-" + ty,
            cat("want\n", want_c));
    const auto b_inv = iso<S>(inv(B));
    check(tf_close(eigen_ext::change_relative_transform_frame(a, b, b_inv), want_c, tol, 8 * scale), "change-relative-frame3-" + ty);
    // Body-consistent trajectories: W1 A1 = pose of A at time 1...
    {
        const M4 WA1 = hom(exp_so3(random_rotation_vector(g)), random_translation(g));
        const M4 WA2 = WA1 * A;            // A moved by A
        const M4 WB1 = WA1 * inv(B), WB2 = WA2 * inv(B);  // T_B^A = B => T_W^B = T_W^A (T_B^A)^-1
        const M4 relB = inv(WB1) * WB2;
        const double s = scale + WA1.block<3, 1>(0, 3).norm();
        check(tf_close(eigen_ext::change_relative_transform_frame(a, b), relB, tol, 8 * s), "change-relative-frame-trajectory-" + ty);
    }
    // Adjoint
    const Eigen::Matrix<S, 6, 6> ad_a = eigen_ext::transform_adjoint(a);
    check(vr::mat_close(ad_a, adjoint(A), tol), "adjoint-definition-" + ty, cat("got\n", ad_a, "\nwant\n", adjoint(A)));
    const Eigen::Matrix<S, 6, 6> ad_ab = eigen_ext::transform_adjoint(Eigen::Transform<S, 3, Eigen::Isometry>(a * b));
    const M6 prod = adjoint(A) * adjoint(B);
    {
        double lim = tol * (1 + adjoint(A).cwiseAbs().maxCoeff() * adjoint(B).cwiseAbs().maxCoeff()) * 10;
        check((ad_ab.template cast<double>() - prod).cwiseAbs().maxCoeff() <= lim, "adjoint-homomorphism-" + ty);
    }
    // change_twist_reference_frame
    V6 tw;
    for (int i = 0; i < 6; ++i) tw(i) = g.chance(0.2) ? 0.0 : g.uniform(-5, 5);
    const Eigen::Matrix<S, 6, 1> tws = tw.cast<S>();
    const Eigen::Matrix<S, 6, 1> got_tw = eigen_ext::change_twist_reference_frame(a, tws);
    const V6 want_tw = vee(A * hat(tw) * inv(A));
    check(vr::mat_close(got_tw, want_tw, tol * 20), "change-twist-frame-" + ty, cat("got ", got_tw.transpose(), " want ", want_tw.transpose()));
    vr::event("transform_pairs");
}

template<typename S>
void rates(vr::Rng& g) {
    const std::string ty = sizeof(S) == 4 ? "f" : "d";
    const double tol = sizeof(S) == 4 ? 2e-3 : 1e-7;
    const M4 P1 = hom(exp_so3(random_rotation_vector(g)), random_translation(g, -2, 2));
    const V3 w_true = random_rotation_vector(g);
    const V3 d = random_translation(g, -2, 2);
    const M4 P2 = P1 * hom(exp_so3(w_true), d);
    const double dt = g.chance(0.2) ? 1.0 : std::abs(g.magnitude(-7, 5));
    const auto p1 = iso<S>(P1), p2 = iso<S>(P2);
    const Eigen::Matrix<S, 6, 1> rr = eigen_ext::linear_rates(p1, p2, static_cast<S>(dt));
    const double sdt = static_cast<double>(static_cast<S>(dt));
    const V3 w = rr.template cast<double>().template head<3>() * sdt, v = rr.template cast<double>().template tail<3>() * sdt;
    const double scale = 1 + P1.block<3, 1>(0, 3).norm() + P2.block<3, 1>(0, 3).norm();
    check(vr::mat_close(exp_so3(w), exp_so3(w_true), tol), "rates-rotation-" + ty, cat("w*dt=", w.transpose(), " true ", w_true.transpose()));
    check(w.norm() <= M_PI + 1e-3, "rates-minimal-angle-" + ty, cat(w.transpose()));
    check((v - d).norm() <= tol * scale, "rates-translation-" + ty, cat("v*dt=", v.transpose(), " true ", d.transpose()));
    vr::nontrivial(hash(P1, hash(P2)));
    vr::event("rate_estimates");
    for (double bad : {0.0, -1e-9, -1.0}) {
        vr::expect_throw([&] { (void)eigen_ext::linear_rates(p1, p2, static_cast<S>(bad)); }, "rates-rejects-nonpositive-dt-" + ty, cat("dt=", bad));
    }
}

template<typename S>
void precomputed(vr::Rng& g) {
    const std::string ty = sizeof(S) == 4 ? "f" : "d";
    const double tol = sizeof(S) == 4 ? 2e-3 : 1e-7;
    V3 r = random_rotation_vector(g);
    if (r.norm() > 0 && g.chance(0.2)) r *= g.uniform(1, 4);  // rotation vectors of more than half a turn
    const V3 t = random_translation(g);
    const M4 T = hom(exp_so3(r), t);
    vr::nontrivial(hash(T));
    auto verify = [&](const eigen_ext::PrecomputedTransformComponents<S>& p, const M4& want, const std::string& which) {
        const std::string k = "precomputed-" + which + "-" + ty;
        const M4 gT = p.T().template cast<double>();
        const M3 gR = p.R().template cast<double>();
        const V3 gr = p.r().template cast<double>(), gt = p.t().template cast<double>();
        check(vr::mat_close(gT.block<3, 3>(0, 0), want.block<3, 3>(0, 0), tol), k + "-T", cat("r=", r.transpose(), " got\n", gT, "\nwant\n", want));
        check(vr::mat_close(gT.row(3), M4::Identity().row(3), tol), k + "-T-row");
        check(vr::mat_close(gR, want.block<3, 3>(0, 0), tol), k + "-R", cat("r=", r.transpose(), " got\n", gR));
        check(vr::mat_close(exp_so3(gr), want.block<3, 3>(0, 0), tol), k + "-r", cat("r=", gr.transpose(), " want ", r.transpose()));
        check(vr::mat_close(gt, want.block<3, 1>(0, 3), tol), k + "-t");
        check(vr::mat_close(gT.block<3, 1>(0, 3), want.block<3, 1>(0, 3), tol), k + "-Tt");
        check(vr::close(p.a(), gr.norm(), tol), k + "-a", cat("a=", p.a(), " |r|=", gr.norm()));
        check(vr::close(p.sina(), std::sin((double)p.a()), tol), k + "-sina");
        check(vr::close(p.cosa(), std::cos((double)p.a()), tol), k + "-cosa");
        vr::event("precomputed_objects");
    };
    const Eigen::Matrix<S, 4, 4> Ts = T.cast<S>();
    verify(eigen_ext::PrecomputedTransformComponents<S>(Ts), T, "matrix");
    const Eigen::Matrix<S, 3, 1> rs = r.cast<S>(), ts = t.cast<S>();
    eigen_ext::PrecomputedTransformComponents<S> prt(rs, ts);
    verify(prt, T, "vector");
    check((prt.r() - rs).norm() <= 1e-6 * (1 + rs.norm()), "precomputed-vector-r-identity-" + ty);
    if (r.norm() == 0) vr::event("zero_rotation_seen");
}

template<typename S>
void polar(vr::Rng& g) {
    const std::string ty = sizeof(S) == 4 ? "f" : "d";
    const double tol = sizeof(S) == 4 ? 2e-3 : 1e-6;
    V3 p;
    switch (g.integer(0, 3)) {
        case 0: for (int i = 0; i < 3; ++i) p(i) = g.magnitude(-2, 2); break;
        case 1: p << g.uniform(-2, 2), 0, g.uniform(-2, 2); break;
        case 2: p << 0, g.uniform(-2, 2), g.chance(0.5) ? 0 : g.uniform(-2, 2); break;
        default: for (int i = 0; i < 3; ++i) p(i) = g.uniform(-30, 30);
    }
    if (p(0) == 0 && p(1) == 0) p(0) = 1;
    const Eigen::Matrix<S, 3, 1> ps = p.cast<S>();
    const Eigen::Matrix<S, 3, 1> o = eigen_ext::cartesian_to_polar(ps);
    const Eigen::Matrix<S, 3, 1> o2 = eigen_ext::cartesian_to_polar(ps(0), ps(1), ps(2));
    const double r = o(0), a = o(1), e = o(2);
    V3 back;
    back << r * std::sin(e) * std::cos(a), r * std::sin(e) * std::sin(a), r * std::cos(e);
    vr::nontrivial(hash(p));
    vr::event("polar_points");
    vr::observe_state("octant", (p(0) > 0) + 2 * (p(1) > 0) + 4 * (p(2) > 0) + 8 * (p(0) == 0) + 16 * (p(1) == 0) + 32 * (p(2) == 0));
    check(vr::close(r, p.norm(), tol), "polar-radius-" + ty, cat("p=", p.transpose(), " r=", r));
    check((back - p).norm() <= tol * (p.norm() + 1e-12), "polar-roundtrip-" + ty, cat("p=", p.transpose(), " got [r,a,e]=", o.transpose(), " maps back to ", back.transpose()));
    check(a >= 0 && a <= 2 * M_PI + 1e-5, "polar-azimuth-range-" + ty, cat("a=", a));
    check(!(ps(1) >= 0) || a <= M_PI + 1e-5, "polar-azimuth-half-" + ty, cat("p=", p.transpose(), " a=", a));
    check(e >= 0 && e <= M_PI + 1e-5, "polar-elevation-range-" + ty, cat("e=", e));
    check((o - o2).norm() <= tol * (1 + r), "polar-overloads-" + ty);
    vr::expect_throw([&] { (void)eigen_ext::cartesian_to_polar(S(0), S(0), S(g.uniform(-1, 1))); }, "polar-rejects-axis-" + ty);
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {
        {"algebra", [](vr::Rng& g) { if (g.chance(0.7)) algebra<double>(g); else algebra<float>(g); }},
        {"rates", [](vr::Rng& g) { if (g.chance(0.7)) rates<double>(g); else rates<float>(g); }},
        {"precomputed", [](vr::Rng& g) { if (g.chance(0.7)) precomputed<double>(g); else precomputed<float>(g); }},
        {"polar", [](vr::Rng& g) { if (g.chance(0.7)) polar<double>(g); else polar<float>(g); }},
    });
}
