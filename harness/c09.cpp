// C07: registration correspondences. C09: registration covariance estimators.
#include <pcl/registration/registration.h>
#include "icp_ref.hpp"
#include "clouds.hpp"
#include "serpent/front_end/lidar/registration_covariance.hpp"
using namespace ref;
using icp_ref::Model;
using vr::check;
using vr::cat;

// A registration whose result is the guess: the monitored code only reads the clouds, indices, search trees and result.
template<typename P, typename S>
class FixedRegistration : public pcl::Registration<P, P, S> {
public:
    using Base = pcl::Registration<P, P, S>;
    FixedRegistration() { this->reg_name_ = "Fixed"; }
protected:
    void computeTransformation(typename Base::PointCloudSource& output, const typename Base::Matrix4& guess) override {
        this->final_transformation_ = guess;
        this->converged_ = true;
    }
};

template<typename P, typename S>
struct Problem {
    typename pcl::PointCloud<P>::Ptr source{new pcl::PointCloud<P>}, target{new pcl::PointCloud<P>};
    pcl::IndicesPtr indices;
    FixedRegistration<P, S> reg;
    M4 T;
    V3 r, t;
    double max_dist, margin = 1e-3;
};

static V3 apply(const M4& T, const V3& x) { return T.block<3, 3>(0, 0) * x + T.block<3, 1>(0, 3); }

template<typename P>
void finish(vr::Rng& g, P& p, const V3& pos, const V3& n) {
    gen::fill(g, p);
    gen::set_xyz(p, pos);
    gen::set_normal(p, n);
}

// Source points are the inverse transform of target points plus noise, with unmatched points on both sides.
template<typename P, typename S>
void install(vr::Rng& g, Problem<P, S>& pr, bool subset) {
    pr.reg.setInputSource(pr.source);
    pr.reg.setInputTarget(pr.target);
    pr.reg.setMaxCorrespondenceDistance(pr.max_dist);
    if (subset) {
        pr.indices.reset(new pcl::Indices);
        for (std::size_t i = 0; i < pr.source->size(); ++i) if (g.chance(0.6)) pr.indices->push_back(i);
        if (pr.indices->empty()) pr.indices->push_back(g.integer(0, pr.source->size() - 1));
        if (g.chance(0.5)) std::reverse(pr.indices->begin(), pr.indices->end());
        pr.reg.setIndices(pr.indices);
    }
    pcl::PointCloud<P> out;
    pr.reg.align(out, pr.T.template cast<S>());
}

template<typename P, typename S>
void build(vr::Rng& g, Problem<P, S>& pr, double amin, double amax, bool subset, int nmin, int nmax, double noise, double spread = 10, double reach = 0, int crowd = 0) {
    pr.r = random_unit(g) * g.uniform(amin, amax);
    pr.t = V3(g.uniform(-2, 2), g.uniform(-2, 2), g.uniform(-2, 2)) * (spread / 10);
    pr.T = hom(exp_so3(pr.r), pr.t).template cast<S>().template cast<double>();
    const int n = g.integer(nmin, nmax);
    pr.max_dist = reach > 0 ? reach : g.uniform(0.4, 1.0);
    const M4 Ti = inv(pr.T);
    for (int i = 0; i < n; ++i) {
        V3 q(g.uniform(-spread, spread), g.uniform(-spread, spread), g.uniform(-spread, spread));
        P tp;
        finish(g, tp, q, random_unit(g));
        const V3 qf(tp.x, tp.y, tp.z);
        for (int c = g.chance(0.15) ? 0 : 1 + (crowd && g.chance(0.3) ? g.integer(1, crowd) : 0); c > 0; --c) {
            P sp;
            V3 e(g.gauss(), g.gauss(), g.gauss());
            const V3 qn = qf + noise * e;
            finish(g, sp, apply(Ti, qn), random_unit(g));
            pr.source->push_back(sp);
        }
        if (!g.chance(0.1)) pr.target->push_back(tp);
        if (g.chance(0.1)) {
            P sp;
            finish(g, sp, V3(g.uniform(-30, 30), g.uniform(-30, 30), g.uniform(-30, 30)) * (spread / 10), random_unit(g));
            pr.source->push_back(sp);
        }
    }
    // shuffle so that index positions carry no meaning; crowded sources stay side by side now and then
    if (!(crowd && g.chance(0.5))) for (std::size_t i = pr.source->size(); i > 1; --i) std::swap(pr.source->points[i - 1], pr.source->points[g.integer(0, i - 1)]);
    for (std::size_t i = pr.target->size(); i > 1; --i) std::swap(pr.target->points[i - 1], pr.target->points[g.integer(0, i - 1)]);
    while (pr.source->size() < 3) { P sp; finish(g, sp, V3(g.uniform(-10, 10), 1, 1), random_unit(g)); pr.source->push_back(sp); }
    while (pr.target->size() < 3) { P sp; finish(g, sp, V3(g.uniform(-10, 10), 1, 1), random_unit(g)); pr.target->push_back(sp); }
    install(g, pr, subset);
}

template<typename P>
V3 pos(const P& p) { return V3(p.x, p.y, p.z); }

struct Nearest { int index; double dist, second; };
template<typename P, typename Pick>
Nearest nearest(const pcl::PointCloud<P>& c, const V3& x, Pick allowed) {
    Nearest n{-1, 1e300, 1e300};
    for (std::size_t i = 0; i < c.size(); ++i) {
        if (!allowed(i)) continue;
        const double d = (pos(c[i]) - x).norm();
        if (d < n.dist) { n.second = n.dist; n.dist = d; n.index = i; }
        else if (d < n.second) n.second = d;
    }
    return n;
}

template<typename P, typename S>
void correspondences(vr::Rng& g) {
    Problem<P, S> pr;
    const bool subset = g.chance(0.4), reciprocal = g.chance(0.35);
    const bool many = g.chance(0.02);
    build(g, pr, 0.0, 3.0, subset, many ? 400 : 1, many ? 900 : 60, 0.15);
    if (many) vr::event("large_clouds");
    double eps = 2e-4;
    const int variant = many ? 0 : g.integer(0, 9);
    if (variant == 1) {  // the same scan twice, already aligned: every distance is zero
        pr.T = M4::Identity();
        *pr.target = *pr.source;
        vr::event("identical_clouds");
    } else if (variant == 2 || variant == 3) {  // one cloud much larger than the other
        auto& c = variant == 2 ? *pr.source : *pr.target;
        for (int i = 3 * static_cast<int>(std::max(pr.source->size(), pr.target->size())) + g.integer(0, 40); i > 0; --i) {
            P p;
            finish(g, p, V3(g.uniform(-30, 30), g.uniform(-30, 30), g.uniform(-30, 30)), random_unit(g));
            c.push_back(p);
        }
        vr::event("unequal_clouds");
    } else if (variant == 4) {  // another length unit
        const double f = std::pow(10.0, g.uniform(-1, 3));
        for (auto* c : {&*pr.source, &*pr.target})
            for (auto& p : *c) finish(g, p, f * V3(p.x, p.y, p.z), V3(p.normal_x, p.normal_y, p.normal_z));
        pr.T.template block<3, 1>(0, 3) *= f;
        pr.T = M4(pr.T.template cast<S>().template cast<double>());
        pr.max_dist *= f;
        eps *= std::max(1.0, f);
        vr::event("scaled_scenes");
    }
    if (variant >= 1 && variant <= 4) install(g, pr, subset);
    std::string k = std::string(reciprocal ? "reciprocal" : "forward") + (subset ? "-subset" : "-all");
    std::vector<char> in(pr.source->size(), subset ? 0 : 1);
    if (subset) for (int i : *pr.indices) in[i] = 1;
    vr::observe_state("configurations", subset * 4 + reciprocal * 2 + (sizeof(S) == 8));
    vr::nontrivial(vr::hash_bytes(pr.source->points.data(), 16 * pr.source->size(), vr::hash_bytes(pr.target->points.data(), 16)));
    vr::sample(cat(pr.source->size(), " source, ", pr.target->size(), " target points, max distance ", pr.max_dist, ", ", k));
    if (reciprocal) {
        if (g.chance(0.2)) {
            // search tree not restricted to the registration's indices: documented to be rejected
            pcl::IndicesPtr other(new pcl::Indices{0});
            pr.reg.getSearchMethodSource()->setInputCloud(pr.source, other);
            vr::expect_throw([&] { (void)pct::compute_registration_correspondences(pr.reg, true); }, "reciprocal-rejects-unrestricted-tree");
            vr::event("unrestricted_tree_rejected");
            return;
        }
        pr.reg.getSearchMethodSource()->setInputCloud(pr.source, pr.reg.getIndices());
    }
    const auto cs = pct::compute_registration_correspondences(pr.reg, reciprocal);
    vr::event("correspondences_" + k, cs->size());
    std::map<int, int> seen;
    for (auto& c : *cs) {
        const bool range_ok = c.index_query >= 0 && c.index_query < (int)pr.source->size() && c.index_match >= 0 && c.index_match < (int)pr.target->size();
        if (!check(range_ok, k + "-index-range", cat(c.index_query, "->", c.index_match))) return;
        check(in[c.index_query], k + "-index-selected", cat("source point ", c.index_query, " is not among the registration's indices"));
        const V3 p = apply(pr.T, pos((*pr.source)[c.index_query])), q = pos((*pr.target)[c.index_match]);
        const double d = (p - q).norm();
        check(d <= pr.max_dist + eps, k + "-within-max-distance", cat("pair ", c.index_query, "->", c.index_match, " is ", d, " apart, maximum ", pr.max_dist));
        check(std::abs(c.distance - d) <= eps, k + "-distance", cat("reported ", c.distance, " actual ", d));
        const int key = reciprocal ? c.index_match : c.index_query;
        check(++seen[key] == 1, k + "-once", cat("point ", key, " matched twice"));
        Nearest n = reciprocal ? nearest(*pr.source, apply(inv(pr.T), q), [&](int i) { return in[i] != 0; })
                               : nearest(*pr.target, p, [](int) { return true; });
        check(d <= n.dist + eps, k + "-nearest", cat("pair ", c.index_query, "->", c.index_match, " at ", d, " but ", n.index, " is at ", n.dist));
    }
    // completeness
    if (!reciprocal) {
        for (std::size_t i = 0; i < pr.source->size(); ++i) {
            if (!in[i]) continue;
            const V3 p = apply(pr.T, pos((*pr.source)[i]));
            const Nearest n = nearest(*pr.target, p, [](int) { return true; });
            if (n.dist <= pr.max_dist - eps) check(seen.count(i) == 1, k + "-complete", cat("source ", i, " has target ", n.index, " at ", n.dist, " but no correspondence"));
        }
    } else {
        for (std::size_t i = 0; i < pr.target->size(); ++i) {
            const V3 q = pos((*pr.target)[i]);
            const Nearest n = nearest(*pr.source, apply(inv(pr.T), q), [&](int j) { return in[j] != 0; });
            if (n.dist <= pr.max_dist - eps) check(seen.count(i) == 1, k + "-complete", cat("target ", i, " has source ", n.index, " at ", n.dist, " but no correspondence"));
        }
    }
}

struct Ref {
    Eigen::MatrixXd H, D, Su, Sr;
    std::vector<std::pair<int, int>> pairs;
    Eigen::VectorXd U;
    double cond;
};
template<typename P, typename S>
bool reference(Problem<P, S>& pr, Model m, bool subset, Ref& o) {
    std::vector<char> in(pr.source->size(), subset ? 0 : 1);
    if (subset) for (int i : *pr.indices) in[i] = 1;
    for (std::size_t i = 0; i < pr.source->size(); ++i) {
        if (!in[i]) continue;
        const V3 p = apply(pr.T, pos((*pr.source)[i]));
        const Nearest n = nearest(*pr.target, p, [](int) { return true; });
        if (std::abs(n.dist - pr.max_dist) < pr.margin) return false;              // ambiguous: skip the case
        if (n.dist < pr.max_dist && n.second - n.dist < pr.margin) return false;   // ambiguous
        if (n.dist < pr.max_dist) o.pairs.emplace_back(i, n.index);
    }
    const int K = o.pairs.size();
    o.H = Eigen::MatrixXd::Zero(6, 6);
    o.D = Eigen::MatrixXd::Zero(6, 6 * K);
    o.U = Eigen::VectorXd::Zero(6 * K);
    for (int k = 0; k < K; ++k) {
        const P& s = (*pr.source)[o.pairs[k].first];
        const P& t = (*pr.target)[o.pairs[k].second];
        M6 h, d;
        icp_ref::derivatives(m, pr.r, pr.t, pos(s), pos(t), V3(t.normal_x, t.normal_y, t.normal_z), h, d);
        o.H += h;
        o.D.block(0, 6 * k, 6, 6) = d;
        if constexpr (std::is_same<P, PointNormalUnit>::value) {
            o.U.segment(6 * k, 6) << s.ux, s.uy, s.uz, t.ux, t.uy, t.uz;
        }
    }
    const Eigen::VectorXd ev = eigenvalues(0.5 * (o.H + o.H.transpose()));
    o.cond = ev(5) / ev(0);
    return ev(0) > 0 && o.cond < 1e6;
}

template<template<typename, typename> class M, typename P, typename S>
void estimators(vr::Rng& g, Model m, const std::string& name, double amin, double amax) {
    Problem<P, S> pr;
    const bool subset = g.chance(0.25);
    // most often a small scene; also large ones, far matches, several sources at one target, any size of space
    const double spread = g.chance(0.3) ? std::pow(10.0, g.uniform(-0.3, 2.3)) : 10;
    const bool large = g.chance(0.12);
    const int size = large ? g.integer(150, 2500) : 60;
    build(g, pr, amin, amax, subset, large ? size : 30, size, 0.02 * std::min(1.0, spread / 10), spread, g.chance(0.35) ? spread * g.uniform(0.2, 3) : 0, g.chance(0.4) ? 3 : 0);
    pr.margin = 1e-3 * std::min(1.0, spread / 10) * (large ? 0.2 : 1);
    if (spread > 10) pr.margin = 2e-5 * spread;
    Ref o;
    if (!reference(pr, m, subset, o) || o.pairs.size() < 10) { vr::event("ill_conditioned_skipped"); return; }
    using Mod = M<P, P>;
    const double low = g.chance(0.3) ? -9 : -4, high = g.chance(0.2) ? 3 : 0;
    const double var = std::pow(10.0, g.uniform(low, high)), bias = std::pow(10.0, g.uniform(low, high));
    const std::string k = name + (subset ? "-subset" : "") + (sizeof(S) == 8 ? "-d" : "-f");
    vr::nontrivial(hash(o.H));
    vr::sample(cat(k, ": ", o.pairs.size(), " correspondences, condition ", o.cond, ", variance ", var));
    vr::observe_state("estimator_configurations", vr::hash_str(k));
    const int K = o.pairs.size();
    std::set<int> matched;
    for (auto& p : o.pairs) matched.insert(p.second);
    if ((int)matched.size() < K) vr::event("targets_shared");
    if (K > 1000) vr::event("large_scenes");
    if (pr.max_dist > 5) vr::event("far_matches_allowed");
    const double tol = 1e-4;  // float search + single precision transforms
    const Eigen::MatrixXd Hi = solve_spd(o.H, Eigen::MatrixXd::Identity(6, 6));
    auto cmp = [&](const M6& got, const Eigen::MatrixXd& want, const int& count, const std::string& what) {
        vr::event("covariances_estimated");
        check(count == K, k + "-" + what + "-count", cat("reported ", count, " correspondences, actual ", K));
        const double s = want.cwiseAbs().maxCoeff();
        const double e = (got - want).cwiseAbs().maxCoeff() / s;
        vr::maximum(name + "-relative-error", e);
        check(e <= tol, k + "-" + what, cat("relative error ", e, "\ngot\n", got, "\nwant\n", want));
        check((got - got.transpose()).cwiseAbs().maxCoeff() <= tol * s, k + "-" + what + "-symmetric");
        check(min_eigenvalue(0.5 * (got + got.transpose())) >= -tol * s, k + "-" + what + "-psd");
    };
    int count = -1;
    cmp(serpent::censi_iid_covariance<Mod, S>(pr.reg, var, count), var * Hi * (o.D * o.D.transpose()) * Hi, count, "censi-iid");
    count = -1;
    cmp(serpent::lls_iid_covariance<Mod, S>(pr.reg, var, count), var * Hi, count, "lls");
    if constexpr (std::is_same<P, PointNormalUnit>::value) {
        // weighted products formed without the 6K x 6K matrices
        M6 wr = M6::Zero(), wd = M6::Zero();
        Eigen::Matrix<double, 6, 1> wb = Eigen::Matrix<double, 6, 1>::Zero();
        for (int b = 0; b < 2 * K; ++b) {
            const Eigen::Matrix<double, 6, 1> du = o.D.block(0, 3 * b, 6, 3) * o.U.segment(3 * b, 3);
            wr += du * du.transpose();
            wb += du;
        }
        for (int i = 0; i < 6 * K; ++i) wd += o.U(i) * o.U(i) * o.D.col(i) * o.D.col(i).transpose();
        count = -1;
        cmp(serpent::censi_range_covariance<Mod, S>(pr.reg, var, count), Hi * (var * wr) * Hi, count, "censi-range");
        if (K <= 600) {
            count = -1;
            cmp(serpent::censi_range_bias_covariance<Mod, S>(pr.reg, var, bias, count), Hi * (bias * wb * wb.transpose() + var * wd) * Hi, count, "censi-range-bias");
        }
    } else {
        vr::expect_throw([&] { (void)serpent::censi_range_covariance<Mod, S>(pr.reg, var, count); }, k + "-range-requires-unit-vectors");
        vr::expect_throw([&] { (void)serpent::censi_range_bias_covariance<Mod, S>(pr.reg, var, bias, count); }, k + "-range-bias-requires-unit-vectors");
    }
}

static void estimators_any(vr::Rng& g) {
    using U = PointNormalUnit;
    using N = pcl::PointNormal;
    switch (g.integer(0, 7)) {
        case 0: case 1: estimators<serpent::PointToPointIcpNonlinearModel, U, float>(g, Model::PointPointNonlinear, "point-nonlinear", 0.0, 3.0); break;
        case 2: case 3: estimators<serpent::PointToPlaneIcpNonlinearModel, U, float>(g, Model::PointPlaneNonlinear, "plane-nonlinear", 0.0, 3.0); break;
        case 4: estimators<serpent::PointToPointIcpLinearisedModel, U, float>(g, Model::PointPointLinearised, "point-linearised", 0.0, 0.3); break;
        case 5: estimators<serpent::PointToPlaneIcpLinearisedModel, U, float>(g, Model::PointPlaneLinearised, "plane-linearised", 0.0, 0.3); break;
        case 6: estimators<serpent::PointToPlaneIcpLinearisedModel, N, float>(g, Model::PointPlaneLinearised, "plane-linearised-normal", 0.0, 0.3); break;
        default: estimators<serpent::PointToPointIcpNonlinearModel, N, float>(g, Model::PointPointNonlinear, "point-nonlinear-normal", 0.2, 3.0);
    }
}

// Names and requirements.
static void names(vr::Rng& g) {
    using namespace serpent;
    const std::vector<std::string> cov = {"CONSTANT", "CENSI", "LLS"};
    const std::vector<std::string> mod = {"POINT_TO_POINT_LINEARISED", "POINT_TO_POINT_NONLINEAR", "POINT_TO_PLANE_LINEARISED", "POINT_TO_PLANE_NONLINEAR"};
    const std::vector<std::string> pt = {"CONSTANT", "VOXEL_SIZE", "RANGE", "RANGE_BIAS"};
    const std::vector<CovarianceEstimationMethod> cov_e = {CovarianceEstimationMethod::CONSTANT, CovarianceEstimationMethod::CENSI, CovarianceEstimationMethod::LLS};
    const std::vector<CovarianceEstimationModel> mod_e = {CovarianceEstimationModel::POINT_TO_POINT_LINEARISED, CovarianceEstimationModel::POINT_TO_POINT_NONLINEAR,
            CovarianceEstimationModel::POINT_TO_PLANE_LINEARISED, CovarianceEstimationModel::POINT_TO_PLANE_NONLINEAR};
    const std::vector<PointCovarianceMethod> pt_e = {PointCovarianceMethod::CONSTANT, PointCovarianceMethod::VOXEL_SIZE, PointCovarianceMethod::RANGE, PointCovarianceMethod::RANGE_BIAS};
    for (int i = 0; i < 3; ++i) check(to_covariance_estimation_method(cov[i]) == cov_e[i] && to_string(cov_e[i]) == cov[i], "name-method", cov[i]);
    for (int i = 0; i < 4; ++i) check(to_covariance_estimation_model(mod[i]) == mod_e[i] && to_string(mod_e[i]) == mod[i], "name-model", mod[i]);
    for (int i = 0; i < 4; ++i) check(to_point_covariance_method(pt[i]) == pt_e[i] && to_string(pt_e[i]) == pt[i], "name-point", pt[i]);
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 4; ++j) {
            const bool want = i != 0 && j >= 2;
            check(requires_unit_vectors(cov_e[i], pt_e[j]) == want, "requires-unit-vectors", cov[i] + "/" + pt[j]);
            check(requires_unit_vectors(cov[i], pt[j]) == want, "requires-unit-vectors-string", cov[i] + "/" + pt[j]);
        }
    // anything else is rejected
    std::string s = g.pick(g.chance(0.5) ? mod : pt);
    switch (g.integer(0, 4)) {
        case 0: s.pop_back(); break;
        case 1: s += "X"; break;
        case 2: for (auto& c : s) c = std::tolower(c); break;
        case 3: s = ""; break;
        default: s[g.integer(0, s.size() - 1)] = '#';
    }
    vr::nontrivial(vr::hash_str(s));
    vr::event("names_parsed");
    vr::expect_throw([&] { (void)to_covariance_estimation_method(s); }, "name-method-rejects", s);
    vr::expect_throw([&] { (void)to_covariance_estimation_model(s); }, "name-model-rejects", s);
    if (s != "RANGE") vr::expect_throw([&] { (void)to_point_covariance_method(s); }, "name-point-rejects", s);
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {
        {"correspondences", [](vr::Rng& g) { if (g.chance(0.5)) correspondences<PointNormalUnit, float>(g); else correspondences<pcl::PointNormal, float>(g); }},
        {"estimators", estimators_any},
        {"names", names},
    });
}
