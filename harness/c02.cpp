// C02: covariance propagation of eigen_ext.
#include "eigen_ext/covariance.hpp"
#include "eigen_ext/geometry.hpp"
#include "ref.hpp"
using namespace ref;
using vr::check;
using vr::cat;

static double smin(const Eigen::MatrixXd& S) { return min_eigenvalue(S); }

template<typename S>
void propagate(vr::Rng& g) {
    const std::string ty = sizeof(S) == 4 ? "f" : "d";
    const double tol = sizeof(S) == 4 ? 1e-3 : 1e-9;
    const M4 T = hom(exp_so3(random_rotation_vector(g)), random_translation(g, -6, 1));
    M6 C = random_spd<6>(g);
    const bool zero = g.chance(0.1);
    if (zero) C.setZero();
    const auto t = iso<S>(T);
    const Eigen::Matrix<S, 6, 6> Cs = C.cast<S>();
    const M6 ad = adjoint(T);
    const M6 want = ad * C * ad.transpose();
    const Eigen::Matrix<S, 6, 6> got = eigen_ext::change_covariance_frame(Cs, t);
    vr::nontrivial(hash(C, hash(T)));
    vr::sample(cat("T=\n", T, "\nC diag ", C.diagonal().transpose()));
    vr::event("covariances_moved");
    check(vr::mat_close(got, want, tol), "change-frame-" + ty, cat("got\n", got, "\nwant\n", want));
    const Eigen::Matrix<S, 6, 6> ads = ad.cast<S>();
    check(vr::mat_close(eigen_ext::change_covariance_frame(Cs, ads), want, tol), "change-frame-adjoint-overload-" + ty);
    // Symmetric, positive semi-definite, and there-and-back.
    const Eigen::MatrixXd gd = got.template cast<double>();
    const double sc = 1 + gd.cwiseAbs().maxCoeff();
    check((gd - gd.transpose()).cwiseAbs().maxCoeff() <= tol * sc, "change-frame-symmetric-" + ty);
    check(smin(0.5 * (gd + gd.transpose())) >= -tol * sc * 10, "change-frame-psd-" + ty);
    if (sizeof(S) == 8) {
        const auto t_inv = iso<S>(inv(T));
        const Eigen::Matrix<S, 6, 6> back = eigen_ext::change_covariance_frame(got, t_inv);
        check((back.template cast<double>() - C).cwiseAbs().maxCoeff() <= 1e-8 * (1 + want.cwiseAbs().maxCoeff() + C.cwiseAbs().maxCoeff()) * (1 + ad.cwiseAbs().maxCoeff()) * (1 + ad.cwiseAbs().maxCoeff()),
                "change-frame-roundtrip-" + ty);
    }
}

// Composition against first-order propagation measured numerically: T_AC = T_AB exp(x1) T_BC exp(x2) with covariance of
// (x1, x2); J = d log(T_AC^-1 T_AC') / d(x1, x2) found by central differences of the group operation itself.
static V6 log_small(const M4& T) {
    // valid for T close to identity
    return vee(T - M4::Identity());
}
static M4 exp_small(const V6& x) { return hom(exp_so3(x.head<3>()), x.tail<3>()); }

template<typename S>
void compose(vr::Rng& g) {
    const std::string ty = sizeof(S) == 4 ? "f" : "d";
    const double tol = sizeof(S) == 4 ? 2e-3 : 1e-6;
    const M4 Tab = hom(exp_so3(random_rotation_vector(g)), random_translation(g, -6, 1));
    V3 tbc = random_translation(g, -6, 1);
    if (g.chance(0.2)) for (int i = 0; i < 3; ++i) tbc(i) = g.magnitude(0, 3); // far apart frames
    const M4 Tbc = hom(exp_so3(random_rotation_vector(g)), tbc);
    // Joint covariance of the two perturbations (always PSD).
    Eigen::Matrix<double, 12, 12> J = random_spd<12>(g, -3, 1);
    const bool cross = g.chance(0.6);
    if (!cross) {
        J.block<6, 6>(0, 6).setZero();
        J.block<6, 6>(6, 0).setZero();
    }
    Eigen::Matrix<double, 6, 12> D;
    const double h = 1e-5;
    for (int i = 0; i < 12; ++i) {
        V6 xp[2] = {V6::Zero(), V6::Zero()}, xm[2] = {V6::Zero(), V6::Zero()};
        xp[i / 6](i % 6) = h;
        xm[i / 6](i % 6) = -h;
        const M4 T0 = Tab * Tbc;
        const V6 fp = log_small(inv(T0) * (Tab * exp_small(xp[0]) * Tbc * exp_small(xp[1])));
        const V6 fm = log_small(inv(T0) * (Tab * exp_small(xm[0]) * Tbc * exp_small(xm[1])));
        D.col(i) = (fp - fm) / (2 * h);
    }
    const M6 want = D * J * D.transpose();
    const Eigen::Matrix<S, 6, 6> prev = J.block<6, 6>(0, 0).cast<S>(), rel = J.block<6, 6>(6, 6).cast<S>();
    // relative_cross_covariance: terms cross*Adj^T + Adj*cross^T, so cross = Cov(x2, x1)
    const Eigen::Matrix<S, 6, 6> crs = J.block<6, 6>(6, 0).cast<S>();
    const auto t = iso<S>(Tbc);
    const Eigen::Matrix<S, 6, 6> got = cross ? eigen_ext::compose_transform_covariance<S, 3>(prev, rel, t, crs)
                                             : eigen_ext::compose_transform_covariance<S, 3>(prev, rel, t);
    vr::nontrivial(hash(J, hash(Tbc)));
    vr::event(cross ? "compositions_with_cross_covariance" : "compositions_without_cross_covariance");
    check(vr::mat_close(got, want, tol), std::string(cross ? "compose-cross-" : "compose-") + ty, cat("got\n", got, "\nwant\n", want));
    const Eigen::MatrixXd gd = got.template cast<double>();
    const double sc = 1 + gd.cwiseAbs().maxCoeff();
    check((gd - gd.transpose()).cwiseAbs().maxCoeff() <= tol * sc, "compose-symmetric-" + ty);
    check(smin(0.5 * (gd + gd.transpose())) >= -tol * sc, "compose-psd-" + ty, cat("min eigenvalue ", smin(0.5 * (gd + gd.transpose()))));
    // Associativity of accumulation: (prev + rel) + rel2 over two steps equals one step over the composed relative.
    if (sizeof(S) == 8 && !cross) {
        const M4 Tcd = hom(exp_so3(random_rotation_vector(g)), random_translation(g, -6, 1));
        const Eigen::Matrix<S, 6, 6> rel2 = random_spd<6>(g, -3, 1).template cast<S>();
        const auto td = iso<S>(Tcd);
        const Eigen::Matrix<S, 6, 6> two = eigen_ext::compose_transform_covariance<S, 3>(got, rel2, td);
        const Eigen::Matrix<S, 6, 6> relc = eigen_ext::compose_transform_covariance<S, 3>(rel, rel2, td);
        const auto tbd = iso<S>(Tbc * Tcd);
        const Eigen::Matrix<S, 6, 6> one = eigen_ext::compose_transform_covariance<S, 3>(prev, relc, tbd);
        check(vr::mat_close(two, one, 1e-7), "compose-associative-" + ty);
    }
}

template<typename S>
void rotate_point(vr::Rng& g) {
    const std::string ty = sizeof(S) == 4 ? "f" : "d";
    const double tol = sizeof(S) == 4 ? 1e-3 : 1e-9;
    const V3 r = random_rotation_vector(g);
    const M3 R = exp_so3(r);
    const M3 C = random_spd<3>(g);
    const Eigen::Matrix<S, 3, 3> Cs = C.cast<S>(), Rs = R.cast<S>();
    const M3 want = R * C * R.transpose();
    vr::nontrivial(hash(C, hash(R)));
    vr::event("point_covariances_rotated");
    check(vr::mat_close(eigen_ext::rotate_point_covariance(Cs, Rs), want, tol), "rotate-point-matrix-" + ty);
    check(vr::mat_close(eigen_ext::rotate_point_covariance(Cs, Eigen::Quaternion<S>{Rs}), want, tol), "rotate-point-quat-" + ty);
    check(vr::mat_close(eigen_ext::rotate_point_covariance(Cs, Eigen::AngleAxis<S>{Rs}), want, tol), "rotate-point-angleaxis-" + ty);
}

template<int N>
void reorder_fixed(vr::Rng& g) {
    Eigen::Matrix<double, N, N> C;
    for (int r = 0; r < N; ++r) for (int c = 0; c < N; ++c) C(r, c) = g.uniform(-9, 9);
    if (g.chance(0.5)) C = random_spd<N>(g);
    const int b = g.integer(1, N - 1);
    const Eigen::Matrix<double, N, N> got = eigen_ext::reorder_covariance(C, b);
    vr::observe_state("reorder_shapes", N * 100 + b);
    vr::nontrivial(hash(C, b));
    vr::event("reorderings");
    bool ok = true;
    for (int r = 0; r < N; ++r)
        for (int c = 0; c < N; ++c) ok = ok && got((r + N - b) % N, (c + N - b) % N) == C(r, c);
    check(ok, "reorder-permutation", cat("N=", N, " boundary=", b, "\nin\n", C, "\nout\n", got));
    const Eigen::Matrix<double, N, N> back = eigen_ext::reorder_covariance(got, N - b);
    check((back - C).cwiseAbs().maxCoeff() == 0, "reorder-involution", cat("N=", N, " boundary=", b));
    for (long bad : {0L, (long)N, (long)N + 3})
        vr::expect_throw([&] { (void)eigen_ext::reorder_covariance(C, bad); }, "reorder-rejects-boundary", cat("N=", N, " boundary=", bad));
    // dynamic size
    const Eigen::MatrixXd Cd = C;
    const Eigen::MatrixXd gotd = eigen_ext::reorder_covariance(Cd, b);
    check(gotd.rows() == N && gotd.cols() == N && (gotd - got).cwiseAbs().maxCoeff() == 0, "reorder-dynamic", cat("N=", N, " boundary=", b));
    Eigen::MatrixXd rect(N, N + 1);
    rect.setOnes();
    vr::expect_throw([&] { (void)eigen_ext::reorder_covariance(rect, 1); }, "reorder-rejects-nonsquare");
}
void reorder(vr::Rng& g) {
    switch (g.integer(0, 4)) {
        case 0: reorder_fixed<2>(g); break;
        case 1: reorder_fixed<3>(g); break;
        case 2: reorder_fixed<5>(g); break;
        case 3: reorder_fixed<9>(g); break;
        default: reorder_fixed<6>(g);
    }
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {
        {"propagate", [](vr::Rng& g) { if (g.chance(0.7)) propagate<double>(g); else propagate<float>(g); }},
        {"compose", [](vr::Rng& g) { if (g.chance(0.7)) compose<double>(g); else compose<float>(g); }},
        {"rotate_point", [](vr::Rng& g) { if (g.chance(0.7)) rotate_point<double>(g); else rotate_point<float>(g); }},
        {"reorder", reorder},
    });
}
