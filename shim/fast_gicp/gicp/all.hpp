// Stand-in for fast_gicp: the same interface, aligned by PCL's ICP.
#pragma once
#include <pcl/registration/icp.h>
namespace fast_gicp {
enum class RegularizationMethod { NONE, MIN_EIG, NORMALIZED_MIN_EIG, PLANE, FROBENIUS };
enum class NeighborSearchMethod { DIRECT27, DIRECT7, DIRECT1, DIRECT_RADIUS };
enum class VoxelAccumulationMode { ADDITIVE, ADDITIVE_WEIGHTED, MULTIPLICATIVE };
template<typename S, typename T>
class LsqRegistration : public pcl::IterativeClosestPoint<S, T> {
public:
    using Ptr = std::shared_ptr<LsqRegistration<S, T>>;
    using ConstPtr = std::shared_ptr<const LsqRegistration<S, T>>;
    void setRotationEpsilon(double e) { rotation_epsilon = e; }
    void setInitialLambdaFactor(double f) { lambda = f; }
    void setDebugPrint(bool b) { debug = b; }
    double rotation_epsilon = 0, lambda = 0;
    bool debug = false;
};
template<typename S, typename T>
class FastGICP : public LsqRegistration<S, T> {
public:
    using Ptr = std::shared_ptr<FastGICP<S, T>>;
    using ConstPtr = std::shared_ptr<const FastGICP<S, T>>;
    void setNumThreads(int n) { threads = n; }
    void setCorrespondenceRandomness(int n) { randomness = n; }
    void setRegularizationMethod(RegularizationMethod m) { regularization = m; }
    int threads = 0, randomness = 0;
    RegularizationMethod regularization = RegularizationMethod::PLANE;
};
template<typename S, typename T>
class FastGICPSingleThread : public FastGICP<S, T> {
public:
    using Ptr = std::shared_ptr<FastGICPSingleThread<S, T>>;
};
template<typename S, typename T>
class FastVGICP : public FastGICP<S, T> {
public:
    using Ptr = std::shared_ptr<FastVGICP<S, T>>;
    void setResolution(double r) { resolution = r; }
    void setVoxelAccumulationMode(VoxelAccumulationMode m) { mode = m; }
    void setNeighborSearchMethod(NeighborSearchMethod m) { search = m; }
    double resolution = 0;
    VoxelAccumulationMode mode = VoxelAccumulationMode::ADDITIVE;
    NeighborSearchMethod search = NeighborSearchMethod::DIRECT1;
};
}
