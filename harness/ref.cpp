#define REF_IMPL
#include <Eigen/Dense>
#include "ref.hpp"
namespace ref {
Eigen::MatrixXd random_spd_dyn(vr::Rng& g, int n, double lo, double hi) {
    Eigen::MatrixXd A(n, n);
    for (int r = 0; r < n; ++r)
        for (int c = 0; c < n; ++c) A(r, c) = g.gauss();
    Eigen::HouseholderQR<Eigen::MatrixXd> qr(A);
    const Eigen::MatrixXd Q = qr.householderQ();
    Eigen::VectorXd d(n);
    for (int i = 0; i < n; ++i) d(i) = std::pow(10.0, g.uniform(lo, hi));
    const Eigen::MatrixXd S = Q * d.asDiagonal() * Q.transpose();
    return 0.5 * (S + S.transpose());
}
Eigen::VectorXd eigenvalues(const Eigen::MatrixXd& symmetric) {
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(symmetric);
    return es.eigenvalues();
}
double min_eigenvalue(const Eigen::MatrixXd& symmetric) { return eigenvalues(symmetric).minCoeff(); }
Eigen::MatrixXd with_eigenvalue(const Eigen::MatrixXd& C, int i, double rel) {
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(C);
    Eigen::VectorXd d = es.eigenvalues();
    d(i) = rel * d.cwiseAbs().maxCoeff();
    const Eigen::MatrixXd S = es.eigenvectors() * d.asDiagonal() * es.eigenvectors().transpose();
    return 0.5 * (S + S.transpose());
}
Eigen::MatrixXd solve_spd(const Eigen::MatrixXd& A, const Eigen::MatrixXd& B) { return A.ldlt().solve(B); }
}
