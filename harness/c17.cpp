// C17: the graph manager's bookkeeping of states, factors, landmarks and incremental optimisation.
#include <ros/ros.h>

#include <gtsam/inference/Symbol.h>
#include <gtsam/navigation/BarometricFactor.h>
#include <gtsam/nonlinear/GaussNewtonOptimizer.h>
#include <gtsam/nonlinear/Marginals.h>
#include <gtsam/slam/BetweenFactor.h>
#include <gtsam/slam/PriorFactor.h>
#include <gtsam/slam/StereoFactor.h>
#include <serpent/back_end/graph_manager.hpp>
#include "vr.hpp"

using gtsam::symbol_shorthand::B;
using gtsam::symbol_shorthand::P;
using gtsam::symbol_shorthand::S;
using gtsam::symbol_shorthand::V;
using gtsam::symbol_shorthand::X;
using vr::Rng;
using vr::cat;
typedef gtsam::imuBias::ConstantBias Bias;
typedef boost::shared_ptr<gtsam::NonlinearFactor> FactorPtr;

static Eigen::Vector3d vec(Rng& r, double s) { return Eigen::Vector3d(s * r.gauss(), s * r.gauss(), s * r.gauss()); }
static gtsam::Pose3 pose(Rng& r, double rs, double ts) { return gtsam::Pose3(gtsam::Rot3::Expmap(vec(r, rs)), vec(r, ts)); }
static Bias bias(Rng& r, double s) { return Bias(vec(r, s), vec(r, s)); }
static ros::Time stamp(Rng& r) { ros::Time t; return t.fromNSec(1600000000000000000ull + r.next() % 1000000000000ull); }
static Eigen::MatrixXd spd(Rng& r, int n, double s) {
    Eigen::MatrixXd a(n, n);
    for (int i = 0; i < n; ++i)
        for (int j = 0; j < n; ++j) a(i, j) = r.gauss();
    Eigen::MatrixXd m = a * a.transpose() / n + 0.3 * Eigen::MatrixXd::Identity(n, n);
    return 0.5 * s * s * (m + m.transpose());
}
static gtsam::SharedNoiseModel noise(Rng& r, int n, double s) { return gtsam::noiseModel::Gaussian::Covariance(spd(r, n, s)); }
static gtsam::PreintegratedCombinedMeasurements preint(Rng& r, const Bias& b, double* duration = nullptr) {
    auto p = gtsam::PreintegrationCombinedParams::MakeSharedU(9.81);
    p->setAccelerometerCovariance(spd(r, 3, 0.1));
    p->setGyroscopeCovariance(spd(r, 3, 0.02));
    p->setIntegrationCovariance(spd(r, 3, 1e-2));
    p->setBiasAccCovariance(spd(r, 3, 0.05));
    p->setBiasOmegaCovariance(spd(r, 3, 0.02));
    p->setBiasAccOmegaInit(1e-4 * Eigen::Matrix<double, 6, 6>::Identity());
    gtsam::PreintegratedCombinedMeasurements m(p, b);
    const int n = r.integer(2, 6);
    for (int i = 0; i < n; ++i) m.integrateMeasurement(vec(r, 1.0) + Eigen::Vector3d(0, 0, 9.81), vec(r, 0.3), r.uniform(0.01, 0.05));
    if (duration) *duration = m.deltaTij();
    return m;
}

struct Model {
    gtsam::Values values;
    std::map<int, std::vector<FactorPtr>> factors;
    void add(int key, FactorPtr f) { factors[key].push_back(f); }
    gtsam::NonlinearFactorGraph graph(int first, int last) const {
        gtsam::NonlinearFactorGraph g;
        for (const auto& kv : factors)
            if (kv.first >= first && kv.first <= last)
                for (const auto& f : kv.second) g.push_back(f);
        return g;
    }
    template<typename T>
    void set(gtsam::Key k, const T& v) {
        if (values.exists(k)) values.update(k, v);
        else values.insert(k, v);
    }
};

static std::string list(const gtsam::NonlinearFactorGraph& g) {
    std::ostringstream o;
    for (const auto& f : g) {
        o << "(";
        if (f) for (auto k : f->keys()) o << gtsam::DefaultKeyFormatter(k) << " ";
        o << ")";
    }
    return o.str();
}
// same factors with the same multiplicities
static void same_factors(const gtsam::NonlinearFactorGraph& got, const gtsam::NonlinearFactorGraph& want, const std::string& key, const std::string& what) {
    std::vector<bool> used(want.size(), false);
    bool ok = got.size() == want.size();
    for (std::size_t i = 0; ok && i < got.size(); ++i) {
        bool found = false;
        for (std::size_t j = 0; j < want.size() && !found; ++j)
            if (!used[j] && got[i] && got[i]->keys() == want[j]->keys() && got[i]->equals(*want[j], 1e-12)) used[j] = found = true;
        ok = found;
    }
    vr::check_lazy(ok, key, [&] { return cat(what, " got ", list(got), " want ", list(want)); });
}
static void same_values(const gtsam::Values& got, const gtsam::Values& want, const std::string& key, const std::string& what) {
    vr::check_lazy(got.equals(want, 1e-12) && got.size() == want.size(), key, [&] {
        std::ostringstream o;
        o << what << " got";
        for (const auto& kv : got) o << " " << gtsam::DefaultKeyFormatter(kv.key);
        o << " want";
        for (const auto& kv : want) o << " " << gtsam::DefaultKeyFormatter(kv.key);
        return o.str();
    });
}
static gtsam::Values range(const gtsam::Values& v, int first, int last) {
    gtsam::Values out;
    for (const auto& kv : v) {
        const gtsam::Symbol s(kv.key);
        if (s.chr() != 's' && (int)s.index() >= first && (int)s.index() <= last) out.insert(kv.key, kv.value);
    }
    return out;
}

// ---- state storage -------------------------------------------------------------------------------------------------
static void store(Rng& r) {
    serpent::GraphManager gm;
    gtsam::Values want;
    std::map<int, ros::Time> stamps;
    std::map<std::string, std::pair<int, unsigned>> names;
    const int top = r.integer(1, 12);
    auto set = [&](gtsam::Key k, const auto& v) {
        if (want.exists(k)) want.update(k, v), vr::event("values_overwritten");
        else want.insert(k, v);
    };
    const std::vector<std::string> pool{"imu", "reg", "stereo", "barometer"};
    const int ops = r.integer(3, 40);
    const unsigned kinds = r.chance(0.3) ? 1u << r.integer(0, 3) : 0xffu;  // sometimes one kind of value only
    for (int o = 0; o < ops; ++o) {
        const int k = r.integer(0, top);
        std::string nm;
        int off = 0;
        // a name and offset that address key k
        for (const auto& n : names)
            if (nm.empty() || r.chance(0.4)) nm = n.first, off = k - n.second.first;
        const bool named = !nm.empty() && r.chance(0.5);
        const int kind = r.integer(0, 9);
        if (kind < 4 && !(kinds >> kind & 1)) continue;
        switch (kind) {
            case 0: {
                const auto v = pose(r, 1, 10);
                named ? gm.set_pose(nm, v, off) : gm.set_pose(k, v);
                set(X(k), v);
                break;
            }
            case 1: {
                const gtsam::Velocity3 v = vec(r, 3);
                named ? gm.set_velocity(nm, v, off) : gm.set_velocity(k, v);
                set(V(k), v);
                break;
            }
            case 2: {
                const auto v = bias(r, 0.1);
                named ? gm.set_imu_bias(nm, v, off) : gm.set_imu_bias(k, v);
                set(B(k), v);
                break;
            }
            case 3: {
                const double v = r.uniform(-100, 100);
                named ? gm.set_barometer_bias(nm, v, off) : gm.set_barometer_bias(k, v);
                set(P(k), v);
                break;
            }
            case 4: {
                const gtsam::NavState v(pose(r, 1, 10), vec(r, 3));
                named ? gm.set_navstate(nm, v, off) : gm.set_navstate(k, v);
                set(X(k), v.pose());
                set(V(k), gtsam::Velocity3(v.velocity()));
                break;
            }
            case 5: {
                const auto t = stamp(r);
                named ? gm.set_timestamp(nm, t, off) : gm.set_timestamp(k, t);
                stamps[k] = t;
                break;
            }
            case 6:
            case 7: {
                const auto& n = r.pick(pool);
                const unsigned pr = r.integer(0, 3);
                gm.set_named_key(n, k, pr);
                names[n] = {k, pr};
                break;
            }
            case 8: {
                if (named) {
                    gm.increment(nm);
                    ++names[nm].first;
                } else {
                    vr::expect_throw([&] { gm.increment("nothing"); }, "C17:unknown-name", "increment of an unknown name");
                }
                break;
            }
            default: {  // optimised values replace the stored ones
                gtsam::Values upd;
                for (const auto& kv : want)
                    if (r.chance(0.3)) {
                        const gtsam::Symbol s(kv.key);
                        if (s.chr() == 'x') upd.insert(kv.key, pose(r, 1, 10));
                        else if (s.chr() == 'v') upd.insert(kv.key, gtsam::Velocity3(vec(r, 3)));
                        else if (s.chr() == 'b') upd.insert(kv.key, bias(r, 0.1));
                        else upd.insert(kv.key, r.uniform(-9, 9));
                    }
                gm.update_from_values(upd);
                want.update(upd);
                vr::event("updates_from_values");
                break;
            }
        }
    }
    same_values(gm.values(), want, "C17:values", "all values");
    for (int i = 0; i < 4; ++i) {
        const int a = r.integer(0, top + 1), b = r.integer(a, top + 2);
        same_values(gm.values(a, b), range(want, a, b), "C17:values-range", cat("values(", a, ", ", b, ")"));
        vr::event("ranges_extracted");
    }
    for (int k = 0; k <= top + 2; ++k) {
        std::string nm;
        int off = 0;
        for (const auto& n : names) nm = n.first, off = k - n.second.first;
        const bool named = !nm.empty() && r.chance(0.5);
        vr::check(gm.has_pose(k) == want.exists(X(k)) && (!named || gm.has_pose(nm, off) == want.exists(X(k))), "C17:has-pose", cat("key ", k));
        if (want.exists(X(k))) vr::check((named ? gm.pose(nm, off) : gm.pose(k)).equals(want.at<gtsam::Pose3>(X(k)), 1e-12), "C17:pose");
        else vr::expect_throw([&] { gm.pose(k); }, "C17:missing", "pose");
        if (want.exists(V(k))) vr::check((named ? gm.velocity(nm, off) : gm.velocity(k)) == want.at<gtsam::Velocity3>(V(k)), "C17:velocity");
        else vr::expect_throw([&] { gm.velocity(k); }, "C17:missing", "velocity");
        if (want.exists(B(k))) vr::check((named ? gm.imu_bias(nm, off) : gm.imu_bias(k)).equals(want.at<Bias>(B(k)), 1e-12), "C17:bias");
        else vr::expect_throw([&] { gm.imu_bias(k); }, "C17:missing", "bias");
        if (want.exists(P(k))) vr::check((named ? gm.barometer_bias(nm, off) : gm.barometer_bias(k)) == want.at<double>(P(k)), "C17:pressure-bias");
        else vr::expect_throw([&] { gm.barometer_bias(k); }, "C17:missing", "pressure bias");
        if (stamps.count(k)) {
            vr::check((named ? gm.timestamp(nm, off) : gm.timestamp(k)) == stamps[k], "C17:timestamp");
            const auto other = std::next(stamps.begin(), r.integer(0, stamps.size() - 1));
            const auto d = stamps[k] - other->second;
            vr::check(gm.time_between(other->first, k) == d, "C17:time-between", "by key");
            if (!nm.empty()) vr::check(gm.time_between(nm, nm, other->first - names[nm].first, off) == d, "C17:time-between", "by name");
        } else {
            vr::expect_throw([&] { gm.timestamp(k); }, "C17:missing", "timestamp");
        }
        const bool nav = want.exists(X(k)) && want.exists(V(k));
        if (nav) {
            const auto n = named ? gm.navstate(nm, off) : gm.navstate(k);
            vr::check(n.pose().equals(want.at<gtsam::Pose3>(X(k)), 1e-12) && n.velocity() == want.at<gtsam::Velocity3>(V(k)), "C17:navstate");
        }
        if (nav && want.exists(B(k)) && want.exists(P(k)) && stamps.count(k)) {
            const auto s = named ? gm.state(nm, off) : gm.state(k);
            vr::check(s.timestamp() == stamps[k] && s.pose().equals(want.at<gtsam::Pose3>(X(k)), 1e-12) && s.velocity() == want.at<gtsam::Velocity3>(V(k)) &&
                              s.imu_bias().equals(want.at<Bias>(B(k)), 1e-12) && s.barometer_bias() == want.at<double>(P(k)),
                    "C17:state", cat("key ", k));
            vr::event("complete_states");
        } else {
            vr::expect_throw([&] { gm.state(k); }, "C17:missing", "state");
        }
    }
    vr::check(gm.timestamps().size() == stamps.size(), "C17:timestamp", "number of stamps");
    for (const auto& n : pool) {
        if (names.count(n)) vr::check(gm.key(n) == names[n].first && gm.key(n, 3) == names[n].first + 3 && gm.priority(n) == names[n].second, "C17:named-key", n);
        else vr::expect_throw([&] { gm.key(n); }, "C17:unknown-name", n);
    }
    for (unsigned pr = 0; pr < 4; ++pr) {
        bool any = false;
        int lo = std::numeric_limits<int>::max();
        for (const auto& n : names)
            if (n.second.second <= pr) any = true, lo = std::min(lo, n.second.first);
        if (any) vr::check(gm.minimum_key(pr) == lo, "C17:minimum-key", cat("priority ", pr, " got ", gm.minimum_key(pr), " want ", lo)), vr::event("minimum_keys");
        else vr::expect_throw([&] { gm.minimum_key(pr); }, "C17:minimum-key", "no such priority");
        if (pr == 3 && any) vr::check(gm.minimum_key() == lo, "C17:minimum-key", "default");
    }
    {
        gtsam::Values unknown;
        unknown.insert(X(top + 50), gtsam::Pose3());
        vr::expect_throw([&] { gm.update_from_values(unknown); }, "C17:update-unknown", "update with an unknown value");
        same_values(gm.values(), want, "C17:update-unknown", "values after a refused update");
    }
    vr::nontrivial(vr::hash_mix(r.next(), want.size()));
    vr::observe_state("stored_value_sets", vr::hash_mix(want.size() * 100 + stamps.size(), names.size() * 10 + top));
}

// ---- factor storage --------------------------------------------------------------------------------------------------
static void make_factor(Rng& r, serpent::GraphManager& gm, Model& m, int kind, int k) {
    switch (kind) {
        case 0: {
            const auto z = pose(r, 1, 3);
            const auto n = noise(r, 6, 0.1);
            gm.create_prior_pose_factor(k, z, n);
            m.add(k, boost::make_shared<gtsam::PriorFactor<gtsam::Pose3>>(X(k), z, n));
            break;
        }
        case 1: {
            const gtsam::Velocity3 z = vec(r, 3);
            const auto n = noise(r, 3, 0.1);
            gm.create_prior_velocity_factor(k, z, n);
            m.add(k, boost::make_shared<gtsam::PriorFactor<gtsam::Velocity3>>(V(k), z, n));
            break;
        }
        case 2: {
            const auto z = bias(r, 0.1);
            const auto n = noise(r, 6, 0.1);
            gm.create_prior_imu_bias_factor(k, z, n);
            m.add(k, boost::make_shared<gtsam::PriorFactor<Bias>>(B(k), z, n));
            break;
        }
        case 3: {
            const double z = r.uniform(-10, 10);
            const auto n = noise(r, 1, 0.1);
            gm.create_prior_barometer_bias_factor(k, z, n);
            m.add(k, boost::make_shared<gtsam::PriorFactor<double>>(P(k), z, n));
            break;
        }
        case 4: {
            const auto z = pose(r, 0.3, 1);
            const auto n = noise(r, 6, 0.1);
            gm.create_between_pose_factor(k, z, n);
            m.add(k, boost::make_shared<gtsam::BetweenFactor<gtsam::Pose3>>(X(k - 1), X(k), z, n));
            break;
        }
        case 5: {
            const auto n = noise(r, 1, 0.1);
            gm.create_barometric_bias_factor(k, n);
            m.add(k, boost::make_shared<gtsam::BetweenFactor<double>>(P(k - 1), P(k), 0.0, n));
            break;
        }
        case 6: {
            const double kpa = r.uniform(60, 105);
            const auto n = noise(r, 1, 0.1);
            const double h = gm.create_barometric_factor(k, kpa, n);
            // international standard atmosphere
            const double want = 44330.76923076923 * (1.0 - std::pow(kpa / 101.29, 1.0 / 5.256));
            vr::check(std::abs(h - want) < 30.0 + 0.01 * std::abs(want), "C17:height", cat(kpa, " kPa gave ", h, " m, standard atmosphere ", want));
            m.add(k, boost::make_shared<gtsam::BarometricFactor>(X(k), P(k), kpa, n));
            break;
        }
        default: {
            const auto z = preint(r, bias(r, 0.05));
            gm.create_combined_imu_factor(k, z);
            m.add(k, boost::make_shared<gtsam::CombinedImuFactor>(X(k - 1), V(k - 1), X(k), V(k), B(k - 1), B(k), z));
            break;
        }
    }
    vr::event("factors_created");
}
static void factors(Rng& r) {
    serpent::GraphManager gm;
    Model m;
    const bool busy = r.chance(0.1);  // long histories with hundreds of factors
    const int top = busy ? r.integer(10, 120) : r.integer(1, 9), n = busy ? r.integer(60, 200) : r.integer(1, 16);
    if (busy) vr::event("busy_histories");
    for (int i = 0; i < n; ++i) make_factor(r, gm, m, r.integer(0, 7), r.integer(1, top));
    for (int i = 0; i < 4; ++i) {
        const int a = r.integer(0, top), b = r.integer(a, top + 1);
        same_factors(gm.factors(a, b), m.graph(a, b), "C17:factors-range", cat("factors(", a, ", ", b, ")"));
    }
    for (int i = 0; i < 4; ++i) {
        const int k = r.integer(0, top);
        const gtsam::Key key = r.chance(0.25) ? X(k) : r.chance(0.33) ? V(k) : r.chance(0.5) ? B(k) : P(k);
        gtsam::NonlinearFactorGraph want;
        for (const auto& kv : m.factors)
            for (const auto& f : kv.second)
                if (std::find(f->keys().begin(), f->keys().end(), key) != f->keys().end()) want.push_back(f);
        same_factors(gm.factors_for_key(key), want, "C17:factors-for-key", gtsam::DefaultKeyFormatter(key));
        vr::event("key_queries");
    }
    vr::nontrivial(r.next());
}

// ---- optimisation ----------------------------------------------------------------------------------------------------
static gtsam::ISAM2Params isam() {
    gtsam::ISAM2Params p;
    gtsam::ISAM2GaussNewtonParams gn;
    gn.setWildfireThreshold(0.0);
    p.setOptimizationParams(gn);
    p.setRelinearizeThreshold(0.0);
    p.relinearizeSkip = 1;
    p.enableRelinearization = true;
    p.cacheLinearizedFactors = true;
    return p;
}
struct Chain {
    std::vector<gtsam::Pose3> x;
    std::vector<gtsam::Velocity3> v;
    std::vector<Bias> b;
    std::vector<double> p;
};
// One state and its factors, all consistent with the truth when err == 0.
static void extend(Rng& r, serpent::GraphManager& gm, Model& m, Chain& c, bool between, bool imu, bool baro, double init, double err, bool overwrite) {
    const int k = c.x.size();
    boost::optional<gtsam::PreintegratedCombinedMeasurements> pim;
    if (k == 0) {
        c.x.push_back(pose(r, 0.6, 5));
        c.v.push_back(vec(r, 1));
        c.b.push_back(bias(r, 0.02));
        c.p.push_back(r.uniform(-5, 5));
    } else if (imu) {
        pim = preint(r, c.b.back());
        const auto nav = pim->predict(gtsam::NavState(c.x.back(), c.v.back()), c.b.back());
        c.x.push_back(nav.pose());
        c.v.push_back(nav.velocity());
        c.b.push_back(c.b.back());
        c.p.push_back(c.p.back());
    } else {
        c.x.push_back(c.x.back() * pose(r, 0.3, 1));
        c.v.push_back(vec(r, 1));
        c.b.push_back(c.b.back());
        c.p.push_back(c.p.back());
    }
    auto put = [&] {
        const auto xi = c.x[k].retract((gtsam::Vector6() << vec(r, init), vec(r, init)).finished());
        const bool nav = imu && r.chance(0.5);
        if (!nav) gm.set_pose(k, xi);
        m.set(X(k), xi);
        if (imu) {
            const gtsam::Velocity3 vi = c.v[k] + vec(r, init);
            const Bias bi = c.b[k] + Bias(vec(r, init), vec(r, init));
            if (nav) gm.set_navstate(k, gtsam::NavState(xi, vi));
            else gm.set_velocity(k, vi);
            gm.set_imu_bias(k, bi);
            m.set(V(k), vi);
            m.set(B(k), bi);
        }
        if (baro) {
            const double pi = c.p[k] + init * r.gauss();
            gm.set_barometer_bias(k, pi);
            m.set(P(k), pi);
        }
    };
    put();
    if (overwrite) put(), vr::event("initial_values_replaced");
    auto wobble = [&](const gtsam::Pose3& z) { return z.retract((gtsam::Vector6() << vec(r, err), vec(r, err)).finished()); };
    if (k == 0) {
        const auto n = noise(r, 6, 0.05);
        gm.create_prior_pose_factor(0, c.x[0], n);
        m.add(0, boost::make_shared<gtsam::PriorFactor<gtsam::Pose3>>(X(0), c.x[0], n));
        if (imu) {
            const auto nv = noise(r, 3, 0.05), nb = noise(r, 6, 0.02);
            gm.create_prior_velocity_factor(0, c.v[0], nv);
            m.add(0, boost::make_shared<gtsam::PriorFactor<gtsam::Velocity3>>(V(0), c.v[0], nv));
            gm.create_prior_imu_bias_factor(0, c.b[0], nb);
            m.add(0, boost::make_shared<gtsam::PriorFactor<Bias>>(B(0), c.b[0], nb));
        }
        if (baro) {
            const auto n = noise(r, 1, 0.05);
            gm.create_prior_barometer_bias_factor(0, c.p[0], n);
            m.add(0, boost::make_shared<gtsam::PriorFactor<double>>(P(0), c.p[0], n));
        }
    } else {
        if (between) {
            const auto n = noise(r, 6, 0.05);
            const auto z = wobble(c.x[k - 1].between(c.x[k]));
            gm.create_between_pose_factor(k, z, n);
            m.add(k, boost::make_shared<gtsam::BetweenFactor<gtsam::Pose3>>(X(k - 1), X(k), z, n));
        }
        if (imu) {
            gm.create_combined_imu_factor(k, *pim);
            m.add(k, boost::make_shared<gtsam::CombinedImuFactor>(X(k - 1), V(k - 1), X(k), V(k), B(k - 1), B(k), *pim));
        }
        if (baro) {
            const auto n = noise(r, 1, 0.05);
            gm.create_barometric_bias_factor(k, n);
            m.add(k, boost::make_shared<gtsam::BetweenFactor<double>>(P(k - 1), P(k), 0.0, n));
        }
    }
    if (baro && (k == 0 || r.chance(0.7))) {
        const auto n = noise(r, 1, 0.1);
        // a pressure whose height fits the state: invert the factor's height function by bisection
        const double z = c.x[k].z() + c.p[k] + err * r.gauss();
        const gtsam::BarometricFactor probe(X(0), P(0), 100.0, n);
        double lo = 20, hi = 120;
        for (int i = 0; i < 80; ++i) {
            const double mid = 0.5 * (lo + hi);
            (probe.heightOut(mid) > z ? lo : hi) = mid;
        }
        gm.create_barometric_factor(k, lo, n);
        m.add(k, boost::make_shared<gtsam::BarometricFactor>(X(k), P(k), lo, n));
    }
}
static gtsam::Values map_estimate(const gtsam::NonlinearFactorGraph& g, const gtsam::Values& init) {
    gtsam::GaussNewtonParams p;
    p.setRelativeErrorTol(0);
    p.setAbsoluteErrorTol(0);
    p.setMaxIterations(40);
    return gtsam::GaussNewtonOptimizer(g, init, p).optimize();
}
static double distance(const gtsam::Values& a, const gtsam::Values& b) {
    return a.localCoordinates(b).norm();
}
static void covariances(const serpent::ISAM2GraphManager& gm, const gtsam::Marginals& mg, const gtsam::Values& est, Rng& r, double tol) {
    for (const auto& kv : est) {
        if (!r.chance(0.4)) continue;
        const gtsam::Symbol s(kv.key);
        const Eigen::MatrixXd want = mg.marginalCovariance(kv.key);
        const double scale = want.norm();
        auto same = [&](const Eigen::MatrixXd& got, const char* what) {
            vr::check_lazy(got.rows() == want.rows() && (got - want).norm() <= tol * scale, "C17:marginal-covariance",
                    [&] { return cat(what, " of ", std::string(s), " got\n", got, "\nwant\n", want); });
        };
        same(gm.covariance(kv.key), "covariance");
        if (s.chr() == 'x') same(gm.pose_covariance(s.index()), "pose covariance");
        if (s.chr() == 'v') same(gm.velocity_covariance(s.index()), "velocity covariance");
        if (s.chr() == 'b') same(gm.imu_bias_covariance(s.index()), "bias covariance");
        if (s.chr() == 'p') same(gm.barometer_bias_variance(s.index()), "pressure bias variance");
        vr::event("covariances_compared");
    }
}
static void optimise(Rng& r) {
    serpent::ISAM2GraphManager gm(isam());
    Model m;
    Chain c;
    const bool imu = r.chance(0.5), between = !imu || r.chance(0.6), baro = r.chance(0.5);
    vr::check(gm.opt_key() == -1, "C17:opt-key", "before any optimisation");
    int done = -1;
    const int top = r.integer(1, 8);
    while (done < top) {
        const int k = r.integer(done + 1, std::min(top, done + 3));
        const int ahead = std::min(top, k + (int)r.integer(0, 2));  // states already known beyond the optimised key
        while ((int)c.x.size() <= ahead) extend(r, gm, m, c, between, imu, baro, 0.02, 0.01, r.chance(0.3));
        if (k > done + 1) vr::event("several_states_at_once");
        if (ahead > k) vr::event("states_beyond_optimised_key");
        for (int i = 0; i < 6; ++i) {
            gm.optimise(k);
            vr::check(gm.opt_key() == k, "C17:opt-key", cat("after optimising ", k));
        }
        done = k;
        const auto g = m.graph(0, k);
        const auto init = range(m.values, 0, k);
        const auto est = map_estimate(g, init);
        const auto got = gm.values(0, k);
        if (!vr::check(got.size() == est.size(), "C17:optimised-values", "wrong number of values")) return;
        const double d = distance(got, est);
        vr::maximum("distance_from_map", d);
        vr::check(d < 1e-5 * (1.0 + est.size()), "C17:not-the-map-estimate", cat("key ", k, " distance ", d, imu ? " imu" : "", between ? " between" : "", baro ? " barometer" : ""));
        covariances(gm, gtsam::Marginals(g, est), est, r, 1e-4);
        // states beyond k keep what was set
        same_values(gm.values(k + 1, top + 1), range(m.values, k + 1, top + 1), "C17:unoptimised-values-changed", cat("after optimising ", k));
        same_factors(gm.factors(0, top), m.graph(0, top), "C17:factors-after-optimisation", cat("after optimising ", k));
        vr::event("optimisations_compared");
        vr::event("optimised_values", est.size());
    }
    vr::nontrivial(r.next());
}
// Consistent measurements and exact initial values, so that the linearisation points frozen by marginalisation do not matter.
static void marginalise(Rng& r) {
    serpent::ISAM2GraphManager gm(isam());
    Model m;
    Chain c;
    const bool imu = r.chance(0.5);
    int window = r.integer(2, 4), top = r.integer(3, 9), gone = -1;
    bool enabled = r.chance(0.8);
    const bool resize = r.chance(0.4);
    gm.set_marginalisation(enabled, window);
    for (int k = 0; k <= top; ++k) {
        extend(r, gm, m, c, true, imu, false, 0.0, 0.0, false);
        if (resize && r.chance(0.4)) {
            // the window is resized, or marginalisation switched, during the mission
            enabled = r.chance(0.7);
            const int w = r.integer(2, 5);
            gm.set_marginalisation(enabled, w);
            if (enabled) window = w;
            vr::event("windows_resized");
        }
        for (int i = r.integer(1, 3); i > 0; --i)
            if (!vr::expect_no_throw([&] { gm.optimise(k); }, "C17:marginalisation-failed", cat("window ", window, " key ", k))) return;
        if (enabled) gone = std::max(gone, k - window);
        const auto est = map_estimate(m.graph(0, k), range(m.values, 0, k));
        const gtsam::Marginals mg(m.graph(0, k), est);
        const double d = distance(gm.values(0, k), est);
        vr::maximum("distance_from_map_marginalised", d);
        vr::check(d < 1e-5 * (1.0 + est.size()), "C17:marginalised-estimate", cat("window ", window, " key ", k, " distance ", d));
        covariances(gm, mg, range(est, gone + 1, k), r, 1e-4);
        if (gone >= 0) {
            vr::check(gm.marginalisation_key() == gone, "C17:marginalisation-key", cat("got ", gm.marginalisation_key(), " want ", gone));
            vr::expect_throw([&] { gm.pose_covariance(gone); }, "C17:not-marginalised", cat("X(", gone, ") is still in the optimiser"));
            vr::event("states_marginalised");
        }
        if (!enabled && gone < 0) vr::check(gm.marginalisation_key() <= -1, "C17:marginalisation-key", "disabled");
    }
    vr::expect_throw([&] { gm.marginalise(top + 1); }, "C17:marginalise-before-optimise");
    vr::nontrivial(r.next());
}

// ---- stereo ----------------------------------------------------------------------------------------------------------
static void stereo(Rng& r) {
    typedef gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3> SF;
    serpent::ISAM2GraphManager gm(isam());
    Model m;
    Chain c;
    const double fx = r.uniform(300, 900), fy = fx * r.uniform(0.9, 1.1), cx = r.uniform(300, 400), cy = r.uniform(200, 300), bl = r.uniform(0.2, 0.6);
    const auto K = boost::make_shared<gtsam::Cal3_S2Stereo>(fx, fy, 0.0, cx, cy, bl);
    const gtsam::Pose3 b_t_c = gtsam::Pose3(gtsam::Rot3(Eigen::Quaterniond(0.5, -0.5, 0.5, -0.5)), vec(r, 0.2)) * pose(r, 0.1, 0.1);
    const auto nm = noise(r, 3, 1.0);
    if (r.chance(0.5)) gm.set_stereo_calibration(K);
    else gm.set_stereo_calibration(*K);
    gm.set_stereo_noise_model(nm);
    gm.set_body_to_stereo_left_cam_pose(b_t_c);
    vr::check(gm.stereo_calibration() && gm.stereo_calibration()->equals(*K, 1e-12), "C17:calibration");
    const bool crowded = r.chance(0.05);  // frames with scores of landmarks
    const int top = crowded ? r.integer(2, 4) : r.integer(2, 7);
    if (crowded) vr::event("crowded_frames");
    int next_id = r.integer(0, 5);
    std::map<int, gtsam::Point3> world;                          // physical landmarks
    std::map<int, std::map<int, gtsam::StereoPoint2>> frames;    // by key
    std::map<int, std::vector<int>> added;                       // landmark ids by the key that created them
    std::map<int, gtsam::Point3> landmarks;                      // their stored values
    std::set<int> alive, dead;
    int last_opt = -1;
    bool lost_any = false;
    for (int k = 0; k <= top; ++k) {
        // slow motion so that landmarks stay in view
        if (k == 0) {
            extend(r, gm, m, c, true, false, false, 0.0, 0.0, false);
        } else {
            c.x.push_back(c.x.back() * pose(r, 0.02, 0.1));
            gm.set_pose(k, c.x[k]);
            m.set(X(k), c.x[k]);
            const auto n = noise(r, 6, 0.05);
            const auto z = c.x[k - 1].between(c.x[k]).retract((gtsam::Vector6() << vec(r, 0.003), vec(r, 0.01)).finished());
            gm.create_between_pose_factor(k, z, n);
            m.add(k, boost::make_shared<gtsam::BetweenFactor<gtsam::Pose3>>(X(k - 1), X(k), z, n));
        }
        if (k > 0 && r.chance(0.3)) {
            vr::event("states_without_stereo");
            continue;
        }
        // the feature set of this frame
        for (auto it = alive.begin(); it != alive.end();) {
            if (r.chance(0.25)) dead.insert(*it), it = alive.erase(it), lost_any = true;
            else ++it;
        }
        const int fresh = crowded ? r.integer(30, 70) : frames.empty() ? r.integer(2, 6) : r.integer(0, 4);
        const gtsam::Pose3 cam = c.x[k] * b_t_c;
        for (int i = 0; i < fresh; ++i) {
            const double z = r.uniform(3, std::min(20.0, fx * bl / 8));
            world[next_id] = cam.transformFrom(gtsam::Point3(z * r.uniform(-0.3, 0.3), z * r.uniform(-0.3, 0.3), z));
            alive.insert(next_id);
            next_id += r.chance(0.8) ? 1 : r.integer(2, 9);
        }
        std::map<int, gtsam::StereoPoint2> f;
        const gtsam::Pose3 pk = gm.pose(k);  // may already be optimised
        for (int id : alive) {
            const gtsam::Point3 q = cam.transformTo(world[id]);
            const double ul = fx * q.x() / q.z() + cx + 0.3 * r.gauss(), ur = fx * (q.x() - bl) / q.z() + cx + 0.3 * r.gauss(), v = fy * q.y() / q.z() + cy + 0.3 * r.gauss();
            f[id] = gtsam::StereoPoint2(ul, ur, v);
        }
        const bool ok = vr::expect_no_throw([&] { gm.create_stereo_factors_and_values(k, f); }, "C17:stereo-refused", cat("key ", k));
        if (!ok) return;
        // the oracle: a feature seen in this frame and the previous one is measured; its first pair of frames creates the landmark
        if (!frames.empty()) {
            const int pk_key = frames.rbegin()->first;
            const auto& prev = frames.rbegin()->second;
            if (pk_key != k - 1) vr::event("frame_pairs_with_missed_states");
            for (const auto& kv : f) {
                const auto it = prev.find(kv.first);
                if (it == prev.end()) continue;
                if (!landmarks.count(kv.first)) {
                    m.add(k, boost::make_shared<SF>(it->second, nm, X(pk_key), S(kv.first), K, b_t_c));
                    added[k].push_back(kv.first);
                    vr::event("landmarks_created");
                }
                m.add(k, boost::make_shared<SF>(kv.second, nm, X(k), S(kv.first), K, b_t_c));
                const double disp = kv.second.uL() - kv.second.uR(), z = fx * bl / disp;
                const gtsam::Point3 body((kv.second.uL() - cx) * z / fx, (kv.second.v() - cy) * z / fy, z);
                const gtsam::Point3 w = (pk * b_t_c).transformFrom(body);
                landmarks[kv.first] = w;
                m.set(S(kv.first), w);
                if (!vr::check(gm.has_stereo_landmark(kv.first), "C17:landmark-missing", cat("id ", kv.first))) return;
                vr::check((gm.stereo_landmark(kv.first) - w).norm() < 1e-9 * (1 + w.norm()) * (1 + z), "C17:landmark-position",
                        cat("id ", kv.first, " got ", gm.stereo_landmark(kv.first).transpose(), " want ", w.transpose()));
                vr::event("features_measured");
            }
        }
        frames[k] = f;
        for (const auto& kv : world) vr::check(gm.has_stereo_landmark(kv.first) == (landmarks.count(kv.first) > 0), "C17:landmark-set", cat("id ", kv.first));
        for (int q = 0; q <= k; ++q) {
            std::set<int> want(added[q].begin(), added[q].end()), got;
            for (const auto& l : gm.stereo_landmarks(q)) got.insert(l.first);
            vr::check(got == want, "C17:landmarks-of-key", cat("key ", q));
        }
        {
            const auto all = gm.stereo_landmarks();
            vr::check(all.size() == landmarks.size(), "C17:all-landmarks");
            for (const auto& l : all) vr::check(landmarks.count(l.first) && gm.stereo_landmark(l.first) == l.second, "C17:all-landmarks", cat("id ", l.first));
        }
        vr::expect_throw([&] { gm.create_stereo_factors_and_values(k, f); }, "C17:duplicate-frame", "features for the same key twice");
        // camera of a state
        {
            const auto cam_got = gm.stereo_camera(k);
            vr::check(cam_got.pose().equals(pk * b_t_c, 1e-9), "C17:stereo-camera");
        }
        same_factors(gm.factors(0, top), m.graph(0, top), "C17:stereo-factors", cat("after frame ", k));
        const int a = r.integer(0, k), b = r.integer(a, top);
        {
            gtsam::Values want = range(gm.values(), a, b);
            for (const auto& kv : added)
                if (kv.first >= a && kv.first <= b)
                    for (int id : kv.second) want.insert(S(id), gm.stereo_landmark(id));
            same_values(gm.values(a, b), want, "C17:landmarks-in-range", cat("values(", a, ", ", b, ")"));
        }
        if (r.chance(0.5) && k > 0) {
            const auto gk = m.graph(0, k);
            for (int i = 0; i < 60; ++i) {
                const auto before = gm.values();
                if (!vr::expect_no_throw([&] { gm.optimise(k); }, "C17:stereo-optimisation-failed", cat("key ", k))) return;
                if (i > 3 && distance(before, gm.values()) < 1e-7) break;
            }
            last_opt = k;
            const auto& g = gk;
            gtsam::Values init = m.values;
            const auto est = map_estimate(g, init);
            const auto got = gm.values(0, k);
            if (!vr::check(got.size() == est.size(), "C17:stereo-optimised-values", cat(got.size(), " values, expected ", est.size()))) return;
            const double d = distance(got, est), rel = d / (1.0 + g.error(est));
            vr::maximum("stereo_error_above_map", g.error(got) - g.error(est));
            vr::check(g.error(got) - g.error(est) < 1e-4 * (1.0 + g.error(est)), "C17:stereo-not-the-map-estimate", cat("key ", k, " error ", g.error(got), " vs ", g.error(est), " distance ", d, " ", rel));
            for (auto& l : landmarks) l.second = gm.stereo_landmark(l.first);
            m.values = gm.values();
            vr::event("stereo_optimisations");
        }
    }
    // a lost feature may not come back under its id
    if (!dead.empty() && lost_any) {
        for (int id : dead) {
            if (!landmarks.count(id) || frames.rbegin()->second.count(id)) continue;
            auto back = frames.rbegin()->second;
            back[id] = gtsam::StereoPoint2(cx + 20, cx + 10, cy);
            for (int j = 1; j <= 2; ++j) gm.set_pose(top + j, c.x[top]);
            gm.create_stereo_factors_and_values(top + 1, back);
            bool refused = false;
            try {
                gm.create_stereo_factors_and_values(top + 2, back);
            } catch (const std::runtime_error&) {
                refused = true;
            }
            vr::check(refused, "C17:reacquired-id-accepted", cat("id ", id));
            vr::event("reacquired_ids");
            break;
        }
    } else if (frames.size() > 0) {
        // factors need the pose of the frame
        bool refused = false;
        try {
            gm.create_stereo_factors_and_values(top + 5, frames.rbegin()->second);
        } catch (const std::runtime_error&) {
            refused = true;
        }
        vr::check(refused, "C17:pose-not-set", "stereo frame whose pose is not set");
        vr::event("frames_without_pose");
    }
    vr::nontrivial(vr::hash_mix(r.next(), last_opt));
}

int main(int argc, char** argv) {
    return vr::run(argc, argv, {{"store", store}, {"factors", factors}, {"optimise", optimise}, {"marginalise", marginalise}, {"stereo", stereo}});
}
