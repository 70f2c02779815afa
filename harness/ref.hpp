// Reference mathematics used as oracles. Deliberately independent of eigen_ext: plain loops and textbook formulas.
#pragma once
#include <Eigen/Core>
#include <Eigen/Geometry>
#include "vr.hpp"

namespace ref {

using M3 = Eigen::Matrix3d;
using V3 = Eigen::Vector3d;
using M4 = Eigen::Matrix4d;
using M6 = Eigen::Matrix<double, 6, 6>;
using V6 = Eigen::Matrix<double, 6, 1>;

inline M3 skew(const V3& v) {
    M3 m = M3::Zero();
    m(0, 1) = -v(2); m(0, 2) = v(1);
    m(1, 0) = v(2);  m(1, 2) = -v(0);
    m(2, 0) = -v(1); m(2, 1) = v(0);
    return m;
}
// Rodrigues with series fall back.
M3 exp_so3(const V3& r);
#ifdef REF_IMPL
M3 exp_so3(const V3& r) {
    const double a2 = r(0) * r(0) + r(1) * r(1) + r(2) * r(2);
    const double a = std::sqrt(a2);
    double A, B;
    if (a < 1e-4) {
        A = 1.0 - a2 / 6.0 + a2 * a2 / 120.0;
        B = 0.5 - a2 / 24.0 + a2 * a2 / 720.0;
    } else {
        A = std::sin(a) / a;
        B = (1.0 - std::cos(a)) / a2;
    }
    const M3 K = skew(r);
    return M3::Identity() + A * K + B * K * K;
}
#endif
inline M4 hom(const M3& R, const V3& t) {
    M4 T = M4::Identity();
    for (int r = 0; r < 3; ++r) {
        for (int c = 0; c < 3; ++c) T(r, c) = R(r, c);
        T(r, 3) = t(r);
    }
    return T;
}
M4 inv(const M4& T);
#ifdef REF_IMPL
M4 inv(const M4& T) {
    M4 I = M4::Identity();
    for (int r = 0; r < 3; ++r) {
        for (int c = 0; c < 3; ++c) I(r, c) = T(c, r);
        double s = 0;
        for (int c = 0; c < 3; ++c) s -= T(c, r) * T(c, 3);
        I(r, 3) = s;
    }
    return I;
}
#endif
// se(3) hat of [w, v].
inline M4 hat(const V6& x) {
    M4 X = M4::Zero();
    X.block<3, 3>(0, 0) = skew(x.head<3>());
    X.block<3, 1>(0, 3) = x.tail<3>();
    return X;
}
inline V6 vee(const M4& X) {
    V6 x;
    x << X(2, 1), X(0, 2), X(1, 0), X(0, 3), X(1, 3), X(2, 3);
    return x;
}
// Adjoint from its definition: column i is vee(T hat(e_i) T^-1).
M6 adjoint(const M4& T);
#ifdef REF_IMPL
M6 adjoint(const M4& T) {
    M6 A;
    const M4 Ti = inv(T);
    for (int i = 0; i < 6; ++i) {
        V6 e = V6::Zero();
        e(i) = 1;
        A.col(i) = vee(T * hat(e) * Ti);
    }
    return A;
}
#endif
V3 random_unit(vr::Rng& g);
#ifdef REF_IMPL
V3 random_unit(vr::Rng& g) {
    while (true) {
        V3 v;
        v(0) = g.gauss(); v(1) = g.gauss(); v(2) = g.gauss();
        const double n = v.norm();
        if (n > 1e-3) return v / n;
    }
}
#endif
// Rotation vectors of every size: zero, tiny, ordinary, close to pi.
V3 random_rotation_vector(vr::Rng& g, bool allow_zero = true);
#ifdef REF_IMPL
V3 random_rotation_vector(vr::Rng& g, bool allow_zero) {
    V3 axis = random_unit(g);
    if (g.chance(0.15)) {
        axis = V3::Zero();
        axis(g.integer(0, 2)) = g.chance(0.5) ? 1 : -1;
    }
    double a;
    switch (g.integer(0, 7)) {
        case 0: a = allow_zero ? 0.0 : 0.3; break;
        case 1: a = std::abs(g.magnitude(-9, -3)); break;
        case 2: a = M_PI - std::abs(g.magnitude(-9, -2)); break;
        case 3: a = M_PI / 2; break;
        case 4: a = g.uniform(2.0, M_PI); break;
        default: a = g.uniform(0.05, 3.0);
    }
    return axis * a;
}
#endif
V3 random_translation(vr::Rng& g, double lo = -3, double hi = 3);
#ifdef REF_IMPL
V3 random_translation(vr::Rng& g, double lo, double hi) {
    V3 t;
    switch (g.integer(0, 5)) {
        case 0: t = V3::Zero(); break;
        case 1: t = V3::Zero(); t(g.integer(0, 2)) = g.magnitude(lo, hi); break;
        case 2: for (int i = 0; i < 3; ++i) t(i) = g.magnitude(lo, hi); break;
        default: for (int i = 0; i < 3; ++i) t(i) = g.uniform(-10, 10);
    }
    return t;
}
#endif
template<typename Scalar>
Eigen::Transform<Scalar, 3, Eigen::Isometry> iso(const M4& T) {
    Eigen::Transform<Scalar, 3, Eigen::Isometry> r;
    r.matrix() = T.cast<Scalar>();
    return r;
}
// Implemented in ref.cpp (a separate translation unit: the heavy decompositions are compiled once and without sanitizers).
Eigen::MatrixXd random_spd_dyn(vr::Rng& g, int n, double lo, double hi);
double min_eigenvalue(const Eigen::MatrixXd& symmetric);
Eigen::MatrixXd with_eigenvalue(const Eigen::MatrixXd& symmetric, int i, double relative_value);
Eigen::MatrixXd solve_spd(const Eigen::MatrixXd& A, const Eigen::MatrixXd& B);
Eigen::VectorXd eigenvalues(const Eigen::MatrixXd& symmetric);
// Random SPD matrix with controlled conditioning.
template<int N>
Eigen::Matrix<double, N, N> random_spd(vr::Rng& g, double lo = -4, double hi = 2) {
    return random_spd_dyn(g, N, lo, hi);
}
template<typename M>
std::uint64_t hash(const M& m, std::uint64_t h = 7) {
    for (int r = 0; r < m.rows(); ++r)
        for (int c = 0; c < m.cols(); ++c) {
            const double d = m(r, c);
            h = vr::hash_bytes(&d, 8, h);
        }
    return h;
}

}
