// C04: eigen_gtsam conversions are exact and respect the group structure.
#include "eigen_gtsam/eigen_gtsam.hpp"
#include "ref.hpp"
using namespace ref;
using vr::check;
using vr::cat;

static void conversions(vr::Rng& g) {
    const M4 A = hom(exp_so3(random_rotation_vector(g)), random_translation(g)), B = hom(exp_so3(random_rotation_vector(g)), random_translation(g));
    const Eigen::Isometry3d a = iso<double>(A), b = iso<double>(B);
    vr::nontrivial(hash(A, hash(B)));
    vr::sample(cat("A=\n", A));
    vr::event("poses_converted");
    gtsam::Pose3 ga, gb;
    eigen_gtsam::to_gtsam(a, ga);
    eigen_gtsam::to_gtsam(b, gb);
    check(vr::mat_close(ga.matrix(), A, 1e-12), "to-gtsam-pose", cat("got\n", ga.matrix(), "\nwant\n", A));
    Eigen::Isometry3d back;
    eigen_gtsam::to_eigen(ga, back);
    check(vr::mat_close(back.matrix(), A, 1e-12), "pose-roundtrip", cat("got\n", back.matrix(), "\nwant\n", A));
    // Independent observation through gtsam's own accessors.
    check(vr::mat_close(ga.rotation().matrix(), A.block<3, 3>(0, 0), 1e-12), "to-gtsam-pose-rotation");
    check(vr::mat_close(ga.translation(), A.block<3, 1>(0, 3), 1e-12), "to-gtsam-pose-translation");
    V3 p = random_translation(g);
    const double sc = 1e-11 * (1 + p.norm() + A.block<3, 1>(0, 3).norm() + B.block<3, 1>(0, 3).norm());
    check((V3(ga.transformFrom(gtsam::Point3(p))) - (A.block<3, 3>(0, 0) * p + A.block<3, 1>(0, 3))).norm() <= sc, "to-gtsam-pose-acts");
    // Homomorphism
    Eigen::Isometry3d ab;
    eigen_gtsam::to_eigen(ga * gb, ab);
    check((ab.matrix() - A * B).cwiseAbs().maxCoeff() <= 10 * sc, "pose-composition");
    eigen_gtsam::to_eigen(ga.inverse(), ab);
    check((ab.matrix() - inv(A)).cwiseAbs().maxCoeff() <= 10 * sc, "pose-inverse");
    // Rot3
    gtsam::Rot3 r;
    const M3 Rm = A.block<3, 3>(0, 0);
    eigen_gtsam::to_gtsam(Rm, r);
    check(vr::mat_close(r.matrix(), Rm, 1e-12), "to-gtsam-rot");
    M3 rb;
    eigen_gtsam::to_eigen(r, rb);
    check(vr::mat_close(rb, Rm, 1e-12), "rot-roundtrip");
    gtsam::Rot3 r2;
    eigen_gtsam::to_gtsam(a.linear(), r2);
    check(vr::mat_close(r2.matrix(), Rm, 1e-12), "to-gtsam-rot-block");
    // the destination's previous value must not matter
    eigen_gtsam::to_gtsam(b, ga);
    check(vr::mat_close(ga.matrix(), B, 1e-12), "to-gtsam-overwrites");
    eigen_gtsam::to_eigen(gb, back);
    check(vr::mat_close(back.matrix(), B, 1e-12), "to-eigen-overwrites");
}

int main(int argc, char** argv) { return vr::run(argc, argv, {{"conversions", conversions}}); }
