// C03: validity predicates and vector utilities of eigen_ext.
#include "eigen_ext/covariance.hpp"
#include "eigen_ext/matrix.hpp"
#include "ref.hpp"
using namespace ref;
using vr::check;
using vr::cat;

template<int N>
void validity(vr::Rng& g) {
    using M = Eigen::Matrix<double, N, N>;
    M C = random_spd<N>(g, -2, 2);
    const int kind = g.integer(0, 8);
    bool want_valid = true, want_pd = true, want_sym = true;
    double precision = 0;
    const int i = g.integer(0, N - 1);
    int j = g.integer(0, N - 1);
    switch (kind) {
        case 0: break;  // valid
        case 1: {       // one eigenvalue clearly negative, any position
            C = with_eigenvalue(C, i, -0.5);
            want_valid = want_pd = false;
            break;
        }
        case 2: {  // asymmetric in one position, both triangles PD on their own
            C = M::Identity();
            for (int k = 0; k < N; ++k) C(k, k) = g.uniform(1, 5);
            if (N > 1) {
                while (j == i) j = g.integer(0, N - 1);
                C(i, j) = 0.2;
                C(j, i) = 0.1;
                want_valid = want_sym = false;
            }
            break;
        }
        case 3: {  // asymmetry within precision
            C = M::Identity();
            precision = 0.5;
            if (N > 1) {
                while (j == i) j = g.integer(0, N - 1);
                C(i, j) = 0.2;
                C(j, i) = 0.1;
            }
            break;
        }
        case 4: {  // asymmetry beyond precision
            const double size = std::pow(10.0, g.uniform(-6, 6)), gap = 0.1 * std::min(1.0, size);
            C = size * M::Identity();
            precision = gap * (g.chance(0.7) ? 0.5 : 2);
            if (N > 1) {
                while (j == i) j = g.integer(0, N - 1);
                C(i, j) = 0.2 * size;
                C(j, i) = 0.2 * size - gap;
                if (precision < gap) want_valid = want_sym = false;
            }
            break;
        }
        case 5: {  // diagonal matrix with a zero
            C = M::Identity();
            C(i, i) = 0;
            want_valid = want_pd = false;
            break;
        }
        case 6: {  // diagonal matrix with a negative entry
            C = M::Identity();
            C(i, i) = -g.uniform(1e-6, 1);
            want_valid = want_pd = false;
            break;
        }
        case 7: {  // non finite on the diagonal
            const double bad[3] = {std::numeric_limits<double>::infinity(), std::nan(""), -std::numeric_limits<double>::infinity()};
            C(i, i) = bad[g.integer(0, 2)];
            check(!eigen_ext::is_valid_covariance(C), "valid-nonfinite-diagonal", cat("N=", N, " i=", i, "\n", C));
            vr::event("nonfinite_matrices");
            vr::nontrivial(hash(C));
            return;
        }
        default: {  // non finite, symmetric off-diagonal
            const double bad = g.chance(0.5) ? std::nan("") : std::numeric_limits<double>::infinity();
            C(i, j) = C(j, i) = bad;
            check(!eigen_ext::is_valid_covariance(C, 1e-9), "valid-nonfinite-offdiagonal", cat("N=", N, " i=", i, " j=", j));
            vr::event("nonfinite_matrices");
            vr::nontrivial(hash(C));
            return;
        }
    }
    vr::nontrivial(hash(C, kind));
    vr::event("matrices_judged");
    vr::observe_state("validity_kinds", kind * 10000 + N * 100 + i * 10 + (j % 10));
    check(eigen_ext::is_valid_covariance(C, precision) == want_valid, "valid-covariance", cat("kind=", kind, " N=", N, " precision=", precision, " want ", want_valid, "\n", C));
    if (want_sym && precision == 0) check(eigen_ext::is_positive_definite(C) == want_pd, "positive-definite", cat("kind=", kind, "\n", C));
    check(eigen_ext::is_symmetric(C, precision) == want_sym, "symmetric", cat("kind=", kind, " precision ", precision, "\n", C));
    // without a tolerance, symmetry is exact
    const bool exact = C == C.transpose();
    check(eigen_ext::is_symmetric(C) == exact, "symmetric-default", cat("kind=", kind, "\n", C));
    if (!exact) check(!eigen_ext::is_valid_covariance(C), "valid-covariance-default", cat("kind=", kind, "\n", C));
    else if (precision == 0) check(eigen_ext::is_valid_covariance(C) == want_valid, "valid-covariance-default", cat("kind=", kind, "\n", C));
    const Eigen::MatrixXd Cd = C;
    check(eigen_ext::is_valid_covariance(Cd, precision) == want_valid, "valid-covariance-dynamic", cat("kind=", kind, " N=", N));
    // float view of the same matrix when far from the boundary
    bool diag_pos = true;
    for (int k = 0; k < N; ++k) diag_pos = diag_pos && C(k, k) > 0;
    check(eigen_ext::non_zero_diagonals(C) == diag_pos, "non-zero-diagonals", cat("\n", C));
    Eigen::MatrixXd rect(N, N + 1);
    rect.setZero();
    for (int k = 0; k < N; ++k) rect(k, k) = 1;
    check(!eigen_ext::is_valid_covariance(rect), "valid-rejects-nonsquare");
    const Eigen::MatrixXd rect2 = rect.transpose();
    check(!eigen_ext::is_valid_covariance(rect2), "valid-rejects-nonsquare-tall");
}
void validity_any(vr::Rng& g) {
    switch (g.integer(0, 3)) {
        case 0: validity<2>(g); break;
        case 1: validity<3>(g); break;
        case 2: validity<9>(g); break;
        default: validity<6>(g);
    }
}

template<typename S>
void vectors(vr::Rng& g) {
    const std::string ty = sizeof(S) == 4 ? "f" : "d";
    const double tol = sizeof(S) == 4 ? 1e-5 : 1e-12;
    V3 v, w;
    for (int i = 0; i < 3; ++i) { v(i) = g.chance(0.1) ? 0 : g.magnitude(-4, 4); w(i) = g.uniform(-5, 5); }
    if (v.norm() == 0) v(1) = 2;
    const Eigen::Matrix<S, 3, 1> vs = v.cast<S>(), ws = w.cast<S>();
    const V3 vd = vs.template cast<double>(), wd = ws.template cast<double>();
    vr::nontrivial(hash(v, hash(w)));
    vr::event("vectors");
    // skew-symmetric: [v] w = v x w, antisymmetric, invertible
    const Eigen::Matrix<S, 3, 3> K = eigen_ext::skew_symmetric(vs);
    check(vr::mat_close(K, skew(vd), 0), "skew-entries-" + ty, cat(K));
    const Eigen::Matrix<S, 3, 1> vv = eigen_ext::from_skew_symmetric(K);
    check((vv - vs).cwiseAbs().maxCoeff() == 0, "skew-roundtrip-" + ty, cat("v=", v.transpose(), " got ", vv.transpose()));
    // not skew-symmetric -> rejected
    {
        Eigen::Matrix<S, 3, 3> bad = K;
        const int kind = g.integer(0, 3);
        const int i = g.integer(0, 2);
        const int j = (i + g.integer(1, 2)) % 3;
        switch (kind) {
            case 0: bad(i, i) = S(g.uniform(0.1, 5) * v.norm()); break;
            case 1: bad(i, i) = -S(g.uniform(0.1, 5) * v.norm()); break;
            case 2: bad(i, j) += S(1.0 + std::abs(v(0)) + std::abs(v(1)) + std::abs(v(2))); break;
            default: bad = Eigen::Matrix<S, 3, 3>::Identity(); break;
        }
        vr::observe_state("non_skew_kinds", kind * 100 + i * 10 + j);
        vr::expect_throw([&] { (void)eigen_ext::from_skew_symmetric(bad); }, "skew-rejects-" + ty, cat("kind ", kind, "\n", bad));
    }
    // safe_normalise
    const Eigen::Matrix<S, 3, 1> n = eigen_ext::safe_normalise(vs);
    check(vr::close(n.template cast<double>().norm(), 1.0, tol), "normalise-unit-" + ty, cat(n.transpose()));
    check((n.template cast<double>() * vd.norm() - vd).norm() <= tol * 4 * vd.norm(), "normalise-direction-" + ty);
    {   // every non-zero vector has a direction, however short or long
        const V3 dir = wd.norm() == 0 ? V3(V3::UnitZ()) : wd;
        const bool near_unit = g.chance(0.25);  // directions that have drifted a little from unit length
        const double f = near_unit ? (1.0 + g.magnitude(-8, -2)) / dir.norm() : std::pow(10.0, g.integer(-13, 12));
        const Eigen::Matrix<S, 3, 1> tiny = near_unit ? Eigen::Matrix<S, 3, 1>((dir * f).template cast<S>()) : Eigen::Matrix<S, 3, 1>(dir.template cast<S>() * S(f));
        const V3 td = tiny.template cast<double>();
        const Eigen::Matrix<S, 3, 1> nt = eigen_ext::safe_normalise(tiny);
        check((nt.template cast<double>() - td / td.norm()).norm() <= 4 * tol, "normalise-scale-" + ty, cat("vector ", td.transpose(), " got ", nt.transpose()));
    }
    const Eigen::Matrix<S, 3, 1> n2 = eigen_ext::safe_normalise(vs(0), vs(1), vs(2));
    check((n2 - n).norm() <= tol, "normalise-overloads-" + ty);
    vr::expect_throw([&] { (void)eigen_ext::safe_normalise(S(0), S(0), S(0)); }, "normalise-rejects-zero-" + ty);
    {
        Eigen::Matrix<S, 5, 1> z;
        z.setZero();
        vr::expect_throw([&] { (void)eigen_ext::safe_normalise(z); }, "normalise-rejects-zero5-" + ty);
        z(g.integer(0, 4)) = S(-3);
        check(vr::close(eigen_ext::safe_normalise(z).norm(), 1, tol), "normalise-unit5-" + ty);
    }
    // linear_interpolate
    if (sizeof(S) == 8) {
        const double k = g.chance(0.15) ? 0.0 : g.chance(0.15) ? 1.0 : g.uniform(-2, 3);
        const V3 got = eigen_ext::linear_interpolate(vd, wd, k);
        const V3 want = vd + k * (wd - vd);
        check((got - want).norm() <= 1e-11 * (1 + vd.norm() + wd.norm()) * (1 + std::abs(k)), "interpolate-" + ty, cat("k=", k, " got ", got.transpose(), " want ", want.transpose()));
        const double ends = 1e-14 * (vd.norm() + wd.norm());
        if (k == 0.0) check((got - vd).norm() <= ends, "interpolate-start");
        if (k == 1.0) check((got - wd).norm() <= ends, "interpolate-end");
        const M6 A = random_spd<6>(g), B = random_spd<6>(g);
        const M6 m = eigen_ext::linear_interpolate(A, B, k);
        check((m - (A + k * (B - A))).cwiseAbs().maxCoeff() <= 1e-10 * (1 + A.cwiseAbs().maxCoeff() + B.cwiseAbs().maxCoeff()), "interpolate-matrix");
    }
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {
        {"validity", validity_any},
        {"vectors", [](vr::Rng& g) { if (g.chance(0.7)) vectors<double>(g); else vectors<float>(g); }},
    });
}
